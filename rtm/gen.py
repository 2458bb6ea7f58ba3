"""Workload generators shared by the checks, and the library's public names."""

from __future__ import annotations

import numpy as np
import dsptoolbox as dsp

FS = [8000, 16000, 22050, 32000, 44100, 48000, 96000]
SS = dsp.SpectrumScaling
SM = dsp.SpectrumMethod
AMPLITUDE_SCALINGS = [SS.AmplitudeSpectrum, SS.AmplitudeSpectralDensity]
POWER_SCALINGS = [SS.PowerSpectrum, SS.PowerSpectralDensity]
FFT_SCALINGS = [SS.FFTBackward, SS.FFTForward, SS.FFTOrthogonal]
ALL_SCALINGS = list(SS)
WINDOWS = [dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Blackman, dsp.Window.Boxcar, dsp.Window.Flattop]


def content(ctx, n, ch, fs, kinds=("noise", "tone", "decay", "impulse", "sweep", "mixture")):
    """n x ch array; every channel is different."""
    kind = ctx.pick("content", list(kinds))
    t = np.arange(n) / fs
    out = np.zeros((n, ch))
    for c in range(ch):
        if kind == "noise":
            x = ctx.normal(n) * 0.2
        elif kind == "tone":
            f = ctx.rng.uniform(fs * 0.01, fs * 0.4)
            x = 0.5 * np.sin(2 * np.pi * f * t + ctx.rng.uniform(0, 6.28))
        elif kind == "decay":
            x = ctx.normal(n) * np.exp(-t / max(t[-1], 1e-9) * ctx.rng.uniform(2, 9))
        elif kind == "impulse":
            x = ctx.normal(n) * 1e-3
            x[int(ctx.rng.integers(0, max(n // 2, 1)))] += 1.0
        elif kind == "sweep":
            f0, f1 = fs * 0.01, fs * 0.4 * ctx.rng.uniform(0.5, 1)
            T = max(t[-1], 1e-9)
            x = 0.7 * np.sin(2 * np.pi * (f0 * t + (f1 - f0) * t**2 / 2 / T))
        else:
            x = 0.1 * ctx.normal(n) + 0.3 * np.sin(2 * np.pi * ctx.rng.uniform(0.01, 0.3) * fs * t) + 0.05
        out[:, c] = x * ctx.rng.uniform(0.3, 1.5)
    return out


def array(ctx, nmin=300, nmax=4000, ch=(1, 4), fs=None, kinds=("noise", "tone", "decay", "impulse", "sweep", "mixture")):
    fs = fs or ctx.pick("fs", FS)
    n = ctx.int("n", nmin, nmax)
    c = ctx.int("ch", *ch)
    return content(ctx, n, c, fs, kinds), fs


def signal(ctx, nmin=300, nmax=4000, ch=(1, 4), fs=None, cls=dsp.Signal, constrain=False, complex_p=0.0, kinds=("noise", "tone", "decay", "impulse", "sweep", "mixture"), cache=False):
    x, fs = array(ctx, nmin, nmax, ch, fs, kinds)
    if complex_p and ctx.flag("complex", complex_p):
        x = x + 1j * content(ctx, x.shape[0], x.shape[1], fs, ("noise",))
    return cls(None, x.copy(), fs, constrain_amplitude=constrain, activate_cache=cache)


def full(sig):
    """Complex or real data of a signal."""
    return sig.time_data if sig.time_data_imaginary is None else sig.time_data + 1j * sig.time_data_imaginary


def rir(ctx, fs=None, ch=(1, 2), n=None, rt=None):
    """Synthetic impulse response: decaying noise with a direct sound."""
    fs = fs or ctx.pick("fs", [16000, 44100, 48000])
    c = ctx.int("ch", *ch)
    rt = rt or ctx.uniform("rt", 0.2, 0.6)
    n = n or int(fs * rt * 1.2)
    t = np.arange(n) / fs
    x = ctx.normal(n, c) * np.exp(-6.907755 * t[:, None] / rt) * 0.3
    d = ctx.int("d", 20, 300)
    x = np.concatenate([np.zeros((d, c)), x])
    x[d] = 1.0
    return x, fs, rt, d


def random_spectrum_params(ctx, n, method=None):
    """Keyword arguments for set_spectrum_parameters."""
    wl = 2 ** ctx.int("log2wl", 5, max(6, min(10, int(np.log2(n)))))
    return dict(
        method=method or ctx.pick("method", list(SM)),
        smoothing=ctx.pick("smoothing", [0, 0, 3, 6]),
        pad_to_fast_length=ctx.flag("pad"),
        window_length_samples=wl,
        window_type=ctx.pick("window", [dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Blackman]),
        overlap_percent=ctx.pick("overlap", [0.0, 25.0, 50.0, 75.0]),
        detrend=ctx.flag("detrend"),
        average=ctx.pick("avg", ["mean", "median"]),
        scaling=ctx.pick("scaling", ALL_SCALINGS),
    )


def random_spectrogram_params(ctx, n):
    wl = 2 ** ctx.int("log2swl", 5, max(6, min(9, int(np.log2(n)))))
    return dict(
        window_length_samples=wl,
        window_type=ctx.pick("swindow", [dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Blackman]),
        overlap_percent=ctx.pick("soverlap", [25.0, 50.0, 75.0]),
        fft_length_samples=ctx.pick("sfft", [None, None, wl, 2 * wl]),
        detrend=ctx.flag("sdetrend"),
        padding=ctx.flag("spad"),
        scaling=ctx.pick("sscaling", ALL_SCALINGS),
    )


def random_filter(ctx, fs, kinds=("biquad", "iir", "fir", "custom_fir", "custom_iir")):
    """A stable filter of class Filter."""
    kind = ctx.pick("fkind", list(kinds))
    if kind == "biquad":
        eq = ctx.pick("eq", list(dsp.BiquadEqType))
        return dsp.Filter.biquad(
            eq_type=eq,
            frequency_hz=ctx.uniform("f0", 0.02 * fs, 0.4 * fs),
            gain_db=ctx.uniform("gain", -12, 12),
            q=ctx.uniform("q", 0.4, 4),
            sampling_rate_hz=fs,
        )
    if kind == "iir":
        pt = ctx.pick("pass", list(dsp.FilterPassType))
        f = ctx.uniform("f0", 0.03 * fs, 0.2 * fs)
        fr = [f, f * 2] if pt in (dsp.FilterPassType.Bandpass, dsp.FilterPassType.Bandstop) else f
        return dsp.Filter.iir_filter(
            order=ctx.int("order", 1, 6),
            frequency_hz=fr,
            type_of_pass=pt,
            filter_design_method=ctx.pick("design", list(dsp.IirDesignMethod)),
            sampling_rate_hz=fs,
            passband_ripple_db=1.0,
            stopband_attenuation_db=40.0,
        )
    if kind == "fir":
        pt = ctx.pick("pass", list(dsp.FilterPassType))
        f = ctx.uniform("f0", 0.05 * fs, 0.2 * fs)
        fr = [f, f * 2] if pt in (dsp.FilterPassType.Bandpass, dsp.FilterPassType.Bandstop) else f
        order = ctx.int("order", 10, 60)
        order += order % 2
        return dsp.Filter.fir_filter(
            order=order, frequency_hz=fr, type_of_pass=pt, sampling_rate_hz=fs
        )
    if kind == "custom_fir":
        b = ctx.normal(ctx.int("taps", 2, 40))
        return dsp.Filter.from_ba(b, np.array([1.0]), fs)
    npairs = ctx.int("pairs", 1, 3)
    p = ctx.rng.uniform(0.2, 0.95, npairs) * np.exp(1j * ctx.rng.uniform(0.1, 3.0, npairs))
    z = ctx.rng.uniform(0.2, 1.5, npairs) * np.exp(1j * ctx.rng.uniform(0.1, 3.0, npairs))
    return dsp.Filter.from_zpk(
        np.concatenate([z, z.conj()]), np.concatenate([p, p.conj()]), ctx.rng.uniform(0.1, 2), fs
    )
