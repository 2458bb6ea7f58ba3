"""P07: scale, energy and frequency axis of spectra."""

import numpy as np
import scipy.fft
import scipy.signal as sig
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.gen import SS, SM

PROPERTY = "P07"
ASSUMPTIONS = [
    "Welch reference is scipy.signal.welch on signals whose length is an exact number of frames (no zero padding of the last frame) with detrending off; detrending itself is judged by its invariance to a constant offset away from DC.",
]
WINS = {
    dsp.Window.Hann: "hann", dsp.Window.Hamming: "hamming", dsp.Window.Blackman: "blackman",
    dsp.Window.Boxcar: "boxcar", dsp.Window.Flattop: "flattop", dsp.Window.Triang: "triang",
    dsp.Window.Blackmanharris: "blackmanharris", dsp.Window.Cosine: "cosine", dsp.Window.Nuttall: "nuttall",
}


def cols(x):
    x = np.asarray(x)
    return x[:, None] if x.ndim == 1 else x


def ref_fft(x, fs, scaling, nfft, window=None):
    """Independent one-sided spectrum in the given scaling."""
    X = np.array([np.fft.rfft(x[:, c], nfft) for c in range(x.shape[1])]).T
    if scaling == SS.FFTBackward:
        return X
    if scaling == SS.FFTForward:
        return X / nfft
    if scaling == SS.FFTOrthogonal:
        return X / np.sqrt(nfft)
    two = np.full(X.shape[0], 2.0)
    two[0] = 1.0
    if nfft % 2 == 0:
        two[-1] = 1.0
    if window is None:
        s1 = np.full(x.shape[1], float(nfft))
        s2 = np.full(x.shape[1], float(nfft))
    else:
        s1 = window.sum(axis=0)
        s2 = (window**2).sum(axis=0)
    if scaling == SS.AmplitudeSpectrum:
        return X * np.sqrt(two)[:, None] / s1
    if scaling == SS.PowerSpectrum:
        return np.abs(X) ** 2 * two[:, None] / s1**2
    if scaling == SS.AmplitudeSpectralDensity:
        return X * np.sqrt(two)[:, None] / np.sqrt(s2 * fs)
    return np.abs(X) ** 2 * two[:, None] / s2 / fs


def fft_reference(ctx):
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    x, fs = gen.array(ctx, 50, 3000)
    s = cls(None, x.copy(), fs, constrain_amplitude=False)
    pad = ctx.flag("pad")
    sc = ctx.pick("scaling", gen.ALL_SCALINGS)
    s.set_spectrum_parameters(method=SM.FFT, pad_to_fast_length=pad, scaling=sc)
    w = None
    if cls is dsp.ImpulseResponse and ctx.flag("win"):
        w = np.abs(ctx.normal(*x.shape)) + 0.05
        s.set_window(w.copy())
    nfft = scipy.fft.next_fast_len(len(x), True) if pad else len(x)
    f, sp = s.get_spectrum()
    ctx.close("frequencies", f, np.fft.rfftfreq(nfft, 1 / fs), 1e-12)
    ctx.close("values", cols(sp), ref_fft(x, fs, sc, nfft, w), 1e-10)
    ctx.ok("dtype", np.iscomplexobj(sp) == sc.outputs_complex_spectrum(SM.FFT), f"{sp.dtype} {sc}")
    # Parseval
    if w is None:
        s.spectrum_scaling = SS.PowerSpectralDensity
        f, psd = s.get_spectrum()
        ctx.close("parseval_psd", cols(psd).sum(axis=0) * (f[1] - f[0]), (x**2).sum(axis=0) / nfft, 1e-9)
        s.spectrum_scaling = SS.PowerSpectrum
        ctx.close("parseval_ps", cols(s.get_spectrum()[1]).sum(axis=0), (x**2).sum(axis=0) / nfft, 1e-9)


def tone(ctx):
    fs = ctx.pick("fs", gen.FS)
    wl = 2 ** ctx.int("log2wl", 6, 11)
    k = ctx.int("bin", 8, wl // 2 - 8)
    amp = ctx.logu("amp", 1e-3, 30)
    off = ctx.uniform("ph", 0, 6.28)
    nper = ctx.int("nper", 4, 9)
    n = wl * nper
    x = amp * np.cos(2 * np.pi * k * np.arange(n) / wl + off)
    s = dsp.Signal(None, x.copy(), fs)
    meth = ctx.pick("method", list(SM))
    win = ctx.pick("window", list(WINS))
    s.set_spectrum_parameters(method=meth, window_length_samples=wl, window_type=win, overlap_percent=0.0, detrend=ctx.flag("det"), scaling=SS.AmplitudeSpectrum, pad_to_fast_length=False, average=ctx.pick("avg", ["mean"]))
    f, sp = s.get_spectrum()
    a = np.abs(cols(sp)[:, 0])
    i = int(np.argmin(np.abs(f - k * fs / wl)))
    ctx.close("bin_frequency", f[i], k * fs / wl, 1e-9)
    ctx.close("tone_rms", a[i], amp / np.sqrt(2), 2e-3 if meth == SM.WelchPeriodogram else 1e-9)
    ctx.ok("peak", np.argmax(a) == i or a[np.argmax(a)] <= a[i] * 1.0001)
    s.spectrum_scaling = SS.PowerSpectrum
    ctx.close("tone_power", np.abs(cols(s.get_spectrum()[1])[i, 0]), amp**2 / 2, 4e-3 if meth == SM.WelchPeriodogram else 1e-9)
    s.spectrum_scaling = SS.PowerSpectralDensity
    f, psd = s.get_spectrum()
    ctx.close("tone_density_integral", np.sum(np.abs(cols(psd)[:, 0])) * (f[1] - f[0]), amp**2 / 2, 5e-3 if meth == SM.WelchPeriodogram else 1e-9)


def welch_reference(ctx):
    fs = ctx.pick("fs", gen.FS)
    wl = 2 ** ctx.int("log2wl", 3, 10)
    ov = ctx.pick("overlap", [0.0, 25.0, 50.0, 62.5, 75.0])
    nov = int(ov / 100 * wl)
    step = wl - nov
    nfr = ctx.int("frames", 1, 24)
    # the library pads the end and analyses ceil(n/step) frames: append the
    # zeros explicitly so that the reference sees the same data
    n = wl + step * (nfr - 1)
    ch = ctx.int("ch", 1, 3)
    x = gen.content(ctx, n, ch, fs)
    tail = int(np.ceil(n / step)) * step - step + wl - n
    xr = np.concatenate([x, np.zeros((max(tail, 0), ch))])
    win = ctx.pick("window", list(WINS))
    avg = ctx.pick("avg", ["mean", "median"])
    sc = ctx.pick("scaling", gen.ALL_SCALINGS)
    s = dsp.Signal(None, x.copy(), fs)
    s.set_spectrum_parameters(method=SM.WelchPeriodogram, window_length_samples=wl, window_type=win, overlap_percent=ov, detrend=False, average=avg, scaling=sc)
    f, sp = s.get_spectrum()
    ctx.equal("shape", sp.shape, (wl // 2 + 1, ch))
    w = sig.get_window(WINS[win], wl)
    mode = "density" if sc.is_spectral_density() else "spectrum"
    fr, p = sig.welch(xr, fs, w, wl, nov, wl, False, True, mode, 0, avg)
    if sc == SS.PowerSpectrum or sc == SS.PowerSpectralDensity:
        ref = p
    elif sc.has_physical_units():
        ref = np.sqrt(p)
    else:
        two = np.full(len(fr), 2.0)
        two[0] = two[-1] = 1.0
        raw = p / two[:, None] * w.sum() ** 2  # |X|^2 averaged, backward norm
        fac = {SS.FFTBackward: 1.0, SS.FFTForward: 1.0 / wl**2, SS.FFTOrthogonal: 1.0 / wl}[sc]
        ref = np.sqrt(raw * fac)
    ctx.close("frequencies", f, fr, 1e-12)
    ctx.close("values", np.abs(cols(sp)), ref, 1e-8)


def welch_offset(ctx):
    """With detrending, a constant offset only matters next to DC."""
    fs = 48000
    wl = 2 ** ctx.int("log2wl", 7, 9)
    n = wl * ctx.int("k", 3, 8)
    x = ctx.normal(n, 2)
    sc = ctx.pick("scaling", gen.ALL_SCALINGS)
    out = []
    for off in (0.0, ctx.uniform("off", 0.5, 4.0)):
        s = dsp.Signal(None, x + off, fs)
        s.set_spectrum_parameters(method=SM.WelchPeriodogram, window_length_samples=wl, window_type=dsp.Window.Hann, overlap_percent=0.0, detrend=True, average=("mean", "median")[ctx.index % 2], scaling=sc)
        out.append(np.abs(s.get_spectrum()[1]))
    ctx.close("offset_invariant", out[1][3:], out[0][3:], 1e-8)
    ctx.ok("dc_removed", np.all(out[1][0] <= 1e-6 * out[1].max()), f"{out[1][0]}")


def scaling_relations(ctx):
    """Conversion factors between any two scalings, and linearity in level."""
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    x, fs = gen.array(ctx, 60, 2000, kinds=("noise",))
    s = cls(None, x.copy(), fs, constrain_amplitude=False)
    s.set_spectrum_parameters(method=SM.FFT, pad_to_fast_length=False)
    w = None
    if cls is dsp.ImpulseResponse and ctx.flag("win"):
        w = np.abs(ctx.normal(*x.shape)) + 0.05
        s.set_window(w.copy())
    a, b = ctx.pick("from", gen.ALL_SCALINGS), ctx.pick("to", gen.ALL_SCALINGS)
    s.spectrum_scaling = a
    A = s.get_spectrum()[1]
    s.spectrum_scaling = b
    B = s.get_spectrum()[1]
    wc = None if w is None else w.copy()
    fac = a.conversion_factor(b, len(x), fs, wc)
    # one-sided DC / Nyquist corrections are left out on purpose
    sl = slice(1, -1)
    aa, ba = a.is_amplitude_scaling(), b.is_amplitude_scaling()
    if aa == ba:
        conv, target = A[sl] * fac, B[sl]
    elif aa:
        conv, target = np.abs(A[sl]) ** 2 * fac, B[sl]
    else:
        conv, target = A[sl] * fac, np.abs(B[sl]) ** 2
    ctx.close("conversion_factor", np.abs(conv), np.abs(target), 1e-10)
    back = b.conversion_factor(a, len(x), fs, wc)
    ctx.close("conversion_roundtrip", np.asarray(fac) * np.asarray(back), np.ones_like(np.asarray(fac)), 1e-12)
    g = ctx.logu("g", 1e-2, 1e2)
    for meth in SM:
        s1 = cls(None, x.copy(), fs, constrain_amplitude=False)
        s2 = cls(None, x * g, fs, constrain_amplitude=False)
        for q in (s1, s2):
            q.set_spectrum_parameters(method=meth, scaling=b, window_length_samples=32, average=("mean", "median")[ctx.index % 2])
        ctx.close(f"gain_{meth.name}", np.abs(s2.get_spectrum()[1]), np.abs(s1.get_spectrum()[1]) * (g if ba else g * g), 1e-9)
    # amplitude and power variants of the same quantity
    for meth in SM:
        s.spectrum_method = meth
        for pa, pp in ((SS.AmplitudeSpectrum, SS.PowerSpectrum), (SS.AmplitudeSpectralDensity, SS.PowerSpectralDensity)):
            s.set_spectrum_parameters(method=meth, window_length_samples=32, scaling=pa, pad_to_fast_length=True)
            am = np.abs(s.get_spectrum()[1])
            s.spectrum_scaling = pp
            ctx.close(f"amplitude_squared_is_power_{meth.name}", am**2, np.abs(s.get_spectrum()[1]), 1e-9)


def enum_facts(ctx):
    for sc in SS:
        amp = sc in gen.AMPLITUDE_SCALINGS + gen.FFT_SCALINGS
        ctx.equal("is_amplitude", sc.is_amplitude_scaling(), amp, str(sc))
        ctx.equal("physical", sc.has_physical_units(), sc not in gen.FFT_SCALINGS, str(sc))
        ctx.equal("density", sc.is_spectral_density(), sc in (SS.AmplitudeSpectralDensity, SS.PowerSpectralDensity), str(sc))
        ctx.equal("complex_welch", sc.outputs_complex_spectrum(SM.WelchPeriodogram), False, str(sc))


def noise_level(ctx):
    """White noise of known variance: density level, both averages."""
    fs = ctx.pick("fs", gen.FS)
    sd = ctx.logu("sd", 1e-2, 10)
    x = ctx.normal(120_000) * sd
    s = dsp.Signal(None, x, fs)
    win = ctx.pick("window", [dsp.Window.Hann, dsp.Window.Blackman, dsp.Window.Hamming, dsp.Window.Boxcar])
    s.set_spectrum_parameters(method=SM.WelchPeriodogram, window_length_samples=ctx.pick("wl", [64, 128, 256, 512]), window_type=win, overlap_percent=ctx.pick("ov", [0.0, 50.0]), detrend=ctx.flag("det"), average=ctx.pick("avg", ["mean", "median"]), scaling=SS.PowerSpectralDensity)
    f, p = s.get_spectrum()
    lev = np.mean(np.abs(cols(p))[4:-4, 0])
    ctx.ok("noise_density", abs(10 * np.log10(lev / (2 * sd**2 / fs))) < 0.35, f"{lev} vs {2 * sd**2 / fs}")


def window_types(ctx):
    """Window enum members give the scipy window they name."""
    for w, name in WINS.items():
        n = ctx.int("n", 8, 200)
        ctx.close(f"periodic_{name}", w(n, False), sig.get_window(name, n, True), 1e-12)
        ctx.close(f"symmetric_{name}", w(n, True), sig.get_window(name, n, False), 1e-12)
    p = ctx.uniform("p", 1.0, 12.0)
    n = ctx.int("n2", 8, 200)
    for w, nm in ((dsp.Window.Kaiser, "kaiser"), (dsp.Window.Gaussian, "gaussian")):
        e = w.with_extra_parameter(p)
        ctx.close(f"extra_{nm}", e(n, True), sig.get_window((nm, p), n, False), 1e-12)
    e = dsp.Window.Chebwin.with_extra_parameter(50 + 4 * p)
    ctx.close("extra_chebwin", e(n, True), sig.get_window(("chebwin", 50 + 4 * p), n, False), 1e-12)
    e = dsp.Window.GeneralHamming.with_extra_parameter(0.5 + p / 30)
    ctx.close("extra_general_hamming", e(n, True), sig.get_window(("general_hamming", 0.5 + p / 30), n, False), 1e-12)
    e = dsp.Window.GeneralGaussian.with_extra_parameter((p / 4, n / 5))
    ctx.close("extra_general_gaussian", e(n, True), sig.get_window(("general_gaussian", p / 4, n / 5), n, False), 1e-12)


MORE = 10  # times the number of cases below in the quick tier
FAMILIES = [
    Family("fft_reference", fft_reference, 400, 8000),
    Family("tone", tone, 200, 4000),
    Family("welch_reference", welch_reference, 400, 8000),
    Family("welch_offset", welch_offset, 60, 800),
    Family("scaling_relations", scaling_relations, 200, 4000),
    Family("enum_facts", enum_facts, 1, 1),
    Family("noise_level", noise_level, 40, 600),
    Family("window_types", window_types, 20, 200),
]
