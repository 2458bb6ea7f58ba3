"""P29: mel, chroma, wavelet, variable-Q and filter bank representations."""

import contextlib
import io
import warnings

import numpy as np
from scipy.signal import butter, sosfilt
import dsptoolbox as dsp
from dsptoolbox import transforms as tr
from rtm.core import Family
from rtm.snap import snap, diff
from rtm import gen

PROPERTY = "P29"
SS = dsp.SpectrumScaling
mel = lambda f: 2595 * np.log10(1 + np.asarray(f) / 700)
hz = lambda m: 700 * (10 ** (np.asarray(m) / 2595) - 1)


def silent(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def sig(x, fs):
    return dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)


def melfilters(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.pick("bins", [33, 129, 513, 2049, 700])
    f = np.linspace(0, fs / 2, n)
    k = ctx.int("bands", 1, 120)
    norm = ctx.flag("normalize")
    rg = None
    if ctx.flag("range", 0.6):
        rg = np.sort(ctx.rng.uniform(0, fs / 2, 2))
        if rg[1] - rg[0] < fs / 20:
            rg = np.array([rg[0] / 4, fs / 2])
        rg = ctx.pick("as", [list, tuple, np.array])(rg[::-1] if ctx.flag("reverse", 0.3) else rg)
    fb = f.copy()
    M, c = tr.mel_filterbank(f, rg, k, norm)
    ctx.ok("input_kept", np.array_equal(f, fb))
    ctx.equal("shape", (M.shape, c.shape), ((k, n), (k,)))
    lo, hi = (f[0], f[-1]) if rg is None else (min(rg), max(rg))
    ref = np.linspace(mel(lo), mel(hi), k + 2)
    ctx.close("centers", c, ref[1:-1], 1e-9, scale=ref[-1])
    ctx.ok("finite", np.all(np.isfinite(M)))
    ctx.ok("nonnegative", np.min(M) >= 0)
    if norm:
        ctx.close("unit_area", np.sum(M, 1), np.ones(k), 1e-9)
    else:
        ctx.close("unit_peak", np.max(M, 1), np.ones(k), 1e-9)
    pk = np.argmax(M, 1)
    edges = np.array([np.argmin(np.abs(f - e)) for e in hz(ref)])
    ctx.ok("peak_at_center", np.all(np.abs(f[pk] - hz(ref[1:-1])) <= (f[1] - f[0]) * 0.5 + 1e-6), f"{pk} {edges}")
    ctx.ok("ordered", np.all(np.diff(pk) >= 0))
    for i in range(k):
        out = np.ones(n, bool)
        out[edges[i] : edges[i + 2] + 1] = False
        if np.any(M[i, out] != 0):
            ctx.fail("support", f"band {i} has values beyond its edges")
        if edges[i + 1] - edges[i] > 1:
            ctx.ok("rises", np.all(np.diff(M[i, edges[i] : edges[i + 1] + 1]) > 0))
        if edges[i + 2] - edges[i + 1] > 1:
            ctx.ok("falls", np.all(np.diff(M[i, edges[i + 1] : edges[i + 2]]) < 0))
    if not norm and np.all(np.diff(edges) > 0):
        ctx.close("bands_add_up", np.sum(M, 0)[edges[1] : edges[-2]], np.ones(edges[-2] - edges[1]), 1e-9)
    ctx.raises("beyond_nyquist", lambda: tr.mel_filterbank(f, [20, fs * 0.6], k, norm))
    ctx.event("bands", k)


def tone(ctx, n, c, fs, lo, hi, a=None):
    f0 = np.exp(ctx.rng.uniform(np.log(lo), np.log(hi), c))
    a = ctx.rng.uniform(0.05, 0.9, c) if a is None else a
    return f0, a, a * np.cos(2 * np.pi * np.arange(n)[:, None] / fs * f0 + ctx.rng.uniform(0, 6, c))


def features(ctx):
    """Log mel spectrogram, MFCC and chroma."""
    fs = ctx.pick("fs", gen.FS)
    n, c = ctx.int("n", 3000, 9000), ctx.int("ch", 1, 3)
    f0, a, x = tone(ctx, n, c, fs, fs * 0.02, fs * 0.35)
    x = x + ctx.rng.normal(size=x.shape) * 1e-4
    wl = ctx.pick("window", [512, 1024])
    par = dict(window_length_samples=wl, overlap_percent=ctx.pick("overlap", [0, 50, 75]), scaling=ctx.pick("scaling", gen.ALL_SCALINGS), detrend=False, padding=ctx.flag("padding"), window_type=ctx.pick("type", [dsp.Window.Hann, dsp.Window.Hamming]))
    s = sig(x, fs)
    direct = ctx.flag("passed")
    if not direct:
        s.set_spectrogram_parameters(**par)
    ref = sig(x, fs)
    ref.set_spectrogram_parameters(**par)
    t0, f, S = ref.get_spectrogram()
    before, pb = snap(s), dict(par)
    bands = ctx.int("bands", 5, 60)
    kw = dict(generate_plot=False, stft_parameters=par if direct else None)
    t, fm, L = silent(lambda: tr.log_mel_spectrogram(s, n_bands=bands, **kw))
    t2, fm2, C = silent(lambda: tr.mfcc(s, **kw))
    M, fr = tr.mel_filterbank(f, None, bands)
    t3, fm3, C3 = silent(lambda: tr.mfcc(s, mel_filters=M, **kw))
    ctx.ok("input_kept", diff(before, snap(s)) is None and par == pb, str(diff(before, snap(s)))[:200])
    P = np.abs(S) ** (2 if par["scaling"] not in (SS.PowerSpectrum, SS.PowerSpectralDensity) else 1)
    want = 10 * np.log10(np.maximum(np.einsum("mf,ftc->mtc", M, P), np.finfo(float).smallest_normal))
    ctx.equal("shape", (L.shape, C3.shape), ((bands, len(t0), c), (bands, len(t0), c)))
    ctx.close("time", t, t0, 1e-9, scale=t0[-1] + 1)
    ctx.close("mel_vector", fm, fr, 1e-12, scale=fr[-1])
    ctx.close("log_mel", L, want, 1e-8, scale=100)
    k = np.arange(bands)
    D = 2 * np.cos(np.pi * np.outer(k, 2 * k + 1) / 2 / bands)
    ctx.close("mfcc", C3, np.abs(np.einsum("km,mtc->ktc", D, want)), 1e-8, scale=100 * bands)
    ctx.equal("mfcc_mel_vector", list(fm3), [0, bands])
    M40, f40 = tr.mel_filterbank(f, None, 40)
    D = 2 * np.cos(np.pi * np.outer(np.arange(40), 2 * np.arange(40) + 1) / 80)
    w40 = 10 * np.log10(np.maximum(np.einsum("mf,ftc->mtc", M40, P), np.finfo(float).smallest_normal))
    ctx.close("mfcc_default", C, np.abs(np.einsum("km,mtc->ktc", D, w40)), 1e-8, scale=4000)
    ctx.close("mfcc_default_vector", fm2, f40, 1e-12, scale=f40[-1])
    # The tone stands in its band; dB follow the gain
    mid = slice(len(t0) // 4, max(len(t0) // 4 + 1, len(t0) * 3 // 4))
    for ch in range(c):
        i = int(np.argmax(np.mean(10 ** (L[:, mid, ch] / 10), 1)))
        cand = np.nonzero(np.max(M[:, np.abs(f - f0[ch]) < 2.5 * fs / wl], 1) > 0)[0]
        ctx.ok("tone_band", i in cand, f"tone of {f0[ch]} Hz in band {i}: {hz(fr[i])} Hz")
    g = ctx.logu("gain", 0.01, 20)
    s2 = sig(x * g, fs)
    s2.set_spectrogram_parameters(**par)
    _, _, L2 = silent(lambda: tr.log_mel_spectrogram(s2, n_bands=bands, generate_plot=False))
    on = (L > -2000) & (L2 > -2000)
    ctx.close("gain_in_db", (L2 - L)[on], np.full(np.sum(on), 20 * np.log10(g)), 1e-6, scale=100)
    live = np.all(on, 0)
    _, _, C2 = silent(lambda: tr.mfcc(s2, mel_filters=M, generate_plot=False))
    ctx.close("gain_first_coefficient", C2[1:][:, live], C3[1:][:, live], 1e-7, scale=100 * bands)
    # Channels on their own
    ch = ctx.int("channel", 0, c - 1)
    s1 = sig(x[:, [ch]], fs)
    s1.set_spectrogram_parameters(**par)
    _, _, L1 = silent(lambda: tr.log_mel_spectrogram(s1, n_bands=bands, generate_plot=False))
    ctx.close("channels_alone", L1[..., 0], L[..., ch], 1e-8, scale=100)
    ctx.event("frames", len(t0))


def chroma(ctx):
    fs = ctx.pick("fs", [16000, 22050, 44100, 48000])
    n, c = 30000, ctx.int("ch", 1, 2)
    tun = ctx.pick("tuning", [440, 432.0, 443.5])
    wl = 8192 if fs > 30000 else 4096
    note = ctx.rng.integers(60, 100, c)
    f0 = tun * 2 ** ((note - 69) / 12)
    a = ctx.rng.uniform(0.1, 0.9, c)
    x = a * np.cos(2 * np.pi * np.arange(n)[:, None] / fs * f0) + ctx.rng.normal(size=(n, c)) * 1e-5
    x += 0.6 * a * np.cos(2 * np.pi * np.arange(n)[:, None] / fs * f0 / 2)  # same chroma, an octave below
    s = sig(x, fs)
    sc = ctx.pick("scaling", gen.ALL_SCALINGS)
    s.set_spectrogram_parameters(window_length_samples=wl, overlap_percent=50, scaling=sc, detrend=False, padding=ctx.flag("padding"))
    b = snap(s)
    comp = ctx.logu("compression", 0.1, 10)
    t, ch, p = tr.chroma_stft(s, tun, comp)
    ctx.ok("input_kept", diff(b, snap(s)) is None)
    t0, f, S = s.get_spectrogram()
    P = np.abs(S) ** (2 if sc not in (SS.PowerSpectrum, SS.PowerSpectralDensity) else 1)
    k = np.arange(128)
    near = np.round(12 * np.log2(np.maximum(f, 1e-9) / tun) + 69)
    ok = np.abs(np.abs(12 * np.log2(np.maximum(f, 1e-9) / tun) % 1) - 0.5) > 1e-6
    T = (near[None] == k[:, None]).astype(float)
    E = np.einsum("kf,ftc->ktc", T, P)
    if np.all(ok):
        ctx.close("pitch", np.expm1(p), comp * E, 1e-6, scale=np.max(comp * E) + 1e-300)
        cr = np.stack([np.sum(E[i::12], 0) for i in range(12)])
        ctx.close("chroma", np.expm1(ch), comp * cr, 1e-6, scale=np.max(comp * cr) + 1e-300)
    mid = slice(len(t0) // 4, len(t0) * 3 // 4)
    for i in range(c):
        ctx.ok("tone_pitch", int(np.argmax(np.sum(p[:, mid, i], 1))) == note[i], f"note {note[i]}")
        ctx.ok("tone_chroma", int(np.argmax(np.sum(ch[:, mid, i], 1))) == note[i] % 12, f"note {note[i]}")
    ctx.equal("shape", (ch.shape, p.shape), ((12, len(t0), c), (128, len(t0), c)))


PRECISION = [1e-5, 1e-5, 1e-4, 1e-7]


def morlet(ctx):
    if ctx.flag("by_h"):
        h = ctx.logu("h", 1, 8)
        b = h**2 / 4 / np.log(2)
        kw = dict(h=h)
    else:
        b = ctx.logu("b", 0.5, 20)
        kw = dict(b=b)
    sc = ctx.pick("scale", [1.0, 0.5, 2.0])
    ctx.precision = ctx.pick("precision", PRECISION)
    w = tr.MorletWavelet(**kw, scale=sc, precision_bounds=ctx.precision, step=5e-3, interpolation=ctx.flag("interpolation", 0.8))
    return w, b, sc


def wavelets(ctx):
    w, b, sc = morlet(ctx)
    fs = ctx.pick("fs", gen.FS)
    x, m = w.get_base_wavelet()
    ctx.close("mother", m, np.exp(2j * np.pi * x / sc - x**2 / b) / np.sqrt(np.pi * b), 1e-9, scale=1)
    ends = np.abs(m[[0, -1]]) / np.max(np.abs(m))
    ctx.ok("decays", np.max(ends) < 1.02e-4)
    # (the last sample may stand one step beyond the bound)
    ctx.ok("bounds", abs(np.log(ends[0] / ctx.precision)) < 0.05, f"{ends}")
    ctx.close("center_frequency", w.get_center_frequency(), 1 / sc, 1e-12)
    f = np.sort(ctx.rng.uniform(fs * 0.01, fs * 0.3, 4))
    many = w.get_wavelet(f, fs)
    ln = w.get_scale_lengths(f, fs)
    for i in range(4):
        v = np.array(w.get_wavelet(f[i], fs))
        ctx.ok("list_as_single", len(many[i]) == len(v) and np.allclose(many[i], v))
        ctx.ok("length", abs(len(v) - ln[i]) <= 2, f"{len(v)} {ln[i]}")
        tau = fs / f[i] / sc
        u = np.arange(len(v)) / tau + x[0]
        ref = np.exp(2j * np.pi * u / sc - u**2 / b) / np.sqrt(np.pi * b)
        e = np.max(np.abs(v - ref)) / np.max(np.abs(ref))
        ctx.ok("samples", e < (0.01 if w.interpolation else 0.1), f"{e}")
    ctx.raises("needs_bandwidth", lambda: tr.MorletWavelet())


def scalogram(ctx):
    w, b, sc = morlet(ctx)
    fs = ctx.pick("fs", gen.FS)
    k = ctx.int("rows", 4, 14)
    # Tones at the rows, far apart with regard to the bandwidth
    f = fs * 0.03 * 2 ** (np.arange(k) * 3.2 / k)
    n, c = int(ctx.int("extra", 200, 1500) + 12 * np.sqrt(b) * fs / f[0] / sc), ctx.int("ch", 1, 3)
    row = ctx.rng.integers(0, k, c)
    _, a, x = tone(ctx, n, c, fs, 1, 2)
    x = a * np.cos(2 * np.pi * np.arange(n)[:, None] * f[row] / fs + 0.3)
    s = sig(x, fs)
    before, fb = snap(s), f.copy()
    W = tr.cwt(s, f, w)
    ctx.ok("input_kept", diff(before, snap(s)) is None and np.array_equal(f, fb))
    ctx.equal("shape", W.shape, (k, n, c))
    lens = w.get_scale_lengths(f, fs)
    mid = n // 2 + np.arange(-20, 20)
    # The positive and negative frequency of the tone must be separated
    if b / sc**2 > 0.6:
        for ch in range(c):
            m = np.mean(np.abs(W[:, mid, ch]), 1)
            ctx.ok("tone_row", int(np.argmax(m)) == row[ch], f"{f[row[ch]]} in row {f[np.argmax(m)]}: {m}")
            ctx.close("tone_level", m[row[ch]], a[ch] / 2, 0.03)
    # Direct convolution
    i = ctx.int("row", 0, k - 1)
    v = np.array(w.get_wavelet(f[i], fs))
    v = v / np.sum(np.abs(v))
    full = np.convolve(x[:, 0], v)
    st = (len(v) - 1) // 2
    ctx.close("convolution", W[i, :, 0], full[st : st + n], 1e-9, scale=np.max(np.abs(x)))
    # Where an impulse stands
    imp = np.zeros((n, 1))
    at = ctx.int("impulse", n // 4, 3 * n // 4)
    imp[at] = 1
    I = tr.cwt(sig(imp, fs), f, w)
    pk = np.argmax(np.abs(I[..., 0]), 1)
    ctx.ok("impulse_time", np.all(np.abs(pk - at) <= 2 + 0.012 * lens), f"{pk} {at}")
    # Linear, channels on their own and in any order
    y = ctx.rng.normal(size=x.shape) * 0.1
    p, q = ctx.rng.normal(size=2)
    ctx.close("linear", tr.cwt(sig(p * x + q * y, fs), f, w), p * W + q * tr.cwt(sig(y, fs), f, w), 1e-9, scale=3)
    sel = ctx.rng.permutation(c)[: ctx.int("selected", 1, c)]
    ctx.close("selection", tr.cwt(s, f, w, channel=sel), W[..., sel], 1e-10, scale=1)
    one = int(sel[0])
    ctx.close("single", tr.cwt(s, f, w, channel=one)[..., 0], W[..., one], 1e-10, scale=1)
    ctx.event("rows", k)


def squeezed(ctx):
    w = tr.MorletWavelet(b=ctx.uniform("b", 2, 8), step=5e-3)
    fs = ctx.pick("fs", [8000, 16000])
    k = ctx.int("rows", 6, 24)
    f = fs * 0.03 * 2 ** (np.arange(k) * 2.0 / k)
    n, c = 500, ctx.int("ch", 1, 2)
    row = ctx.rng.integers(k // 4, k, c)
    a = ctx.rng.uniform(0.1, 0.9, c) * ctx.pick("level", [1.0, 1.0, 1e-3, 1e-6])
    x = a * np.cos(2 * np.pi * np.arange(n)[:, None] * f[row] / fs + 0.3)
    s = sig(x, fs)
    b = snap(s)
    W = tr.cwt(s, f, w)
    norm = ctx.flag("normalization", 0.3)
    Q = tr.cwt(s, f, w, synchrosqueezed=True, apply_synchrosqueezed_normalization=norm)
    ctx.ok("input_kept", diff(b, snap(s)) is None)
    ctx.equal("shape", Q.shape, (k, n, c))
    mid = n // 2 + np.arange(-5, 5)
    for ch in range(c):
        e = np.sum(np.abs(Q[:, mid, ch]) ** 2, 1)
        ctx.ok("tone_row", int(np.argmax(e)) == row[ch], f"{row[ch]} {e}")
        ctx.ok("concentrated", e[row[ch]] > 0.99 * np.sum(e), f"{e / np.sum(e)}")
        if not norm:
            strong = [i for i in range(k) if np.abs(W[i, mid[0], ch]) > 0.1 * a[ch]]
            ctx.ok("gathers", np.min(np.abs(Q[row[ch], mid, ch])) >= 0.9 * np.abs(np.sum(W[strong][:, mid, ch], 0)).min(), f"{strong}")
    # Each value moves to the row nearest to its instantaneous frequency, when
    # a row is within 5 % of its own frequency
    ph = np.abs(np.angle(W[:, 1:] * W[:, :-1].conj())) * fs / 2 / np.pi
    ref = np.zeros_like(W)
    sure = np.ones((n, c), bool)
    for i in range(k):
        for ch in range(c):
            d = np.abs(f[:, None] - ph[i, :, ch])
            o = np.sort(d, 0)
            j = np.argmin(d, 0)
            move = o[0] <= 0.05 * f[i]
            bad = (np.abs(o[0] - 0.05 * f[i]) < 1e-4 * f[i]) | (np.abs(o[0] - o[1]) < 1e-4 * f[i])
            sure[:-1, ch] &= ~bad
            t = np.flatnonzero(move)
            ref[j[t], t, ch] += W[i, t, ch] * ((fs / f[i]) ** -1.5 if norm else 1)
    sure[-1] = False
    T, CH = np.nonzero(sure)
    ctx.close("moved", Q[:, T, CH], ref[:, T, CH], 1e-6)
    ctx.event("moved", len(T))
    if not norm:
        # Everything that is moved is kept or dropped, never created
        ctx.ok("bounded", np.max(np.abs(Q)) <= np.max(np.sum(np.abs(W), 0)) * (1 + 1e-9))


def variable_q(ctx):
    fs = ctx.pick("fs", [16000, 22050, 44100, 48000])
    lo = ctx.int("low", 3, 4)
    hi = lo + ctx.int("octaves", 0, 2)
    tun = ctx.pick("tuning", [440, 442])
    bpo = ctx.pick("bins", [12, 24, 36, 7])
    q = ctx.pick("q", [1, 0.5, 0.8])
    gamma = ctx.pick("gamma", [0, 50, 20])
    n, c = ctx.int("n", 14000, 20000), ctx.int("ch", 1, 3)
    rows = (hi - lo + 1) * bpo
    fr = tun * 2 ** (hi - 4 + 2 / 12) * 2 ** (-np.arange(rows)[::-1] / bpo)
    row = ctx.rng.integers(0, rows, c)
    a = ctx.rng.uniform(0.1, 0.9, c)
    x = a * np.cos(2 * np.pi * np.arange(n)[:, None] * fr[row] / fs + 0.3)
    s = sig(x, fs)
    b = snap(s)
    kw = dict(q=q, gamma=gamma, octaves=[lo, hi], bins_per_octave=bpo, a4_tuning=tun)
    f, V = tr.vqt(s, **kw)
    ctx.ok("input_kept", diff(b, snap(s)) is None)
    ctx.equal("shape", (f.shape, V.shape), ((rows,), (rows, n, c)))
    ctx.close("frequencies", f, fr, 1e-9)
    mid = n // 2 + np.arange(-100, 100)
    for ch in range(c):
        m = np.mean(np.abs(V[:, mid, ch]), 1)
        ctx.ok("tone_row", int(np.argmax(m)) == row[ch] or (abs(int(np.argmax(m)) - row[ch]) == 1 and m[row[ch]] > 0.9 * np.max(m)), f"{row[ch]} {np.argmax(m)} {m[row[ch]] / np.max(m)}")
        # (decimation attenuates the top of each octave)
        ctx.close("tone_level", m[row[ch]], a[ch] / 2, 0.12 if row[ch] % bpo < 0.6 * bpo else 0.35)
    y = ctx.rng.normal(size=x.shape) * 0.1
    p, r = ctx.rng.normal(size=2)
    ctx.close("linear", tr.vqt(sig(p * x + r * y, fs), **kw)[1], p * V + r * tr.vqt(sig(y, fs), **kw)[1], 1e-8, scale=3)
    sel = ctx.rng.permutation(c)[: ctx.int("selected", 1, c)]
    ctx.close("selection", tr.vqt(s, channel=sel, **kw)[1], V[..., sel], 1e-9, scale=1)
    burst = np.zeros((n, 1))
    at = ctx.int("impulse", n // 3, 2 * n // 3)
    burst[at] = 1
    I = np.abs(tr.vqt(sig(burst, fs), **kw)[1][..., 0])
    tc = np.sum(I**2 * np.arange(n), 1) / np.sum(I**2, 1)
    ln = fs * q / (fr * (2 ** (1 / bpo) - 1))
    ctx.ok("impulse_time", np.all(np.abs(tc - at) < 0.1 * ln + 3 * fs / fr), f"{np.max(np.abs(tc - at) / ln)}")
    ctx.event("rows", rows)


def bankspectrum(ctx):
    fs = ctx.pick("fs", [16000, 44100, 48000])
    n, c = ctx.int("n", 6000, 12000), ctx.int("ch", 1, 3)
    k = ctx.int("rows", 2, 8)
    octs = ctx.flag("octaves")
    f = np.geomspace(fs * 0.02, fs * 0.3, k)
    bw = ctx.uniform("bw", 0.2, 0.9) if octs else ctx.uniform("bw_hz", 0.2, 0.9) * f[0]
    order = ctx.pick("order", [2, 4, 8])
    zp = ctx.flag("zero_phase", 0.4)
    row = ctx.rng.integers(0, k, c)
    a = ctx.rng.uniform(0.1, 0.9, c)
    x = a * np.sin(2 * np.pi * np.arange(n)[:, None] * f[row] / fs)
    s = sig(x, fs)
    b, fb = snap(s), f.copy()
    kw = dict(bandwidth_octaves=bw) if octs else dict(bandwidth_hz=bw)
    S = tr.spectrum_via_filterbank(s, f, order=order, zero_phase=zp, **kw)
    ctx.ok("input_kept", diff(b, snap(s)) is None and np.array_equal(f, fb))
    d = S.spectral_data
    ctx.equal("shape", d.shape, (k, c))
    ctx.close("frequencies", S.frequency_vector_hz, f, 1e-12)
    for ch in range(c):
        ctx.ok("tone_row", int(np.argmax(d[:, ch])) == row[ch] or k > 1 and d[row[ch], ch] > 0.8 * np.max(d[:, ch]), f"{d[:, ch]}")
        rel = (n / fs) * (bw if not octs else f[row[ch]] * (2 ** (bw / 2) - 2 ** (-bw / 2)))
        if rel > 40:
            ctx.close("tone_level", d[row[ch], ch], a[ch] / np.sqrt(2), 0.1)
    if not zp:
        for i in range(k):
            e = [f[i] / 2 ** (bw / 2), f[i] * 2 ** (bw / 2)] if octs else [f[i] - bw / 2, f[i] + bw / 2]
            # Order of the band-pass as designed by the library
            o = [np.sqrt(np.mean(sosfilt(butter(m, e, "bandpass", fs=fs, output="sos"), x, axis=0) ** 2, 0)) for m in (order, order // 2)]
            ctx.ok("definition", any(np.allclose(d[i], r, rtol=1e-5, atol=1e-7) for r in o), f"{d[i]} {o}")
    g = ctx.logu("gain", 0.01, 5)
    ctx.close("gain", tr.spectrum_via_filterbank(sig(x * g, fs), f, order=order, zero_phase=zp, **kw).spectral_data, d * g, 1e-9)
    ctx.raises("no_bandwidth", lambda: tr.spectrum_via_filterbank(s, f))
    ctx.raises("two_bandwidths", lambda: tr.spectrum_via_filterbank(s, f, 0.5, 20.0))


MORE = 2  # times the number of cases below in the quick tier
FAMILIES = [
    Family("melfilters", melfilters, 60, 1500),
    Family("features", features, 30, 600),
    Family("chroma", chroma, 12, 200),
    Family("wavelets", wavelets, 20, 300),
    Family("scalogram", scalogram, 25, 400),
    Family("squeezed", squeezed, 10, 120),
    Family("variable_q", variable_q, 16, 250),
    Family("bankspectrum", bankspectrum, 20, 400),
]
