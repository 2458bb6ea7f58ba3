"""Registry of the library's operations on signals, shared by the checks of
the global properties (channel independence, amplitude constraint, purity).

Every entry draws its parameters and returns `f(signal, sel)`, where `sel` are
the indices of the original channels present in `signal` (for operations with
one parameter per channel).  Flags:

  kinds      input objects: S(ignal), R (impulse response), M(ulti-band)
  out        how to bring the result to arrays with channels last
  linear     f(a x) = a f(x)
  channels   acts on each channel alone
  tol        tolerance for comparing equivalent runs
"""

from __future__ import annotations

import contextlib
import io
import warnings

import numpy as np
import matplotlib

matplotlib.use("Agg")
import dsptoolbox as dsp
from dsptoolbox import transfer_functions as tf
from dsptoolbox import transforms as tr
from dsptoolbox import room_acoustics as ra
from dsptoolbox import filterbanks as fb
from dsptoolbox import effects as fx
from dsptoolbox.standard.enums import FadeType
from rtm import gen


class Op:
    def __init__(self, name, build, kinds, out, linear, channels, tol, same_type, complex_ok, loud):
        self.name, self.build, self.kinds, self.out = name, build, kinds, out
        self.linear, self.channels, self.tol, self.same_type = linear, channels, tol, same_type
        self.complex_ok, self.loud = complex_ok, loud

    def make(self, ctx, s):
        return self.build(ctx, s)


OPS: dict[str, Op] = {}


def silent(f, *a):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f(*a)


def arrays(y):
    """Arrays with channels last of a signal, list of signals..."""
    if isinstance(y, dsp.MultiBandSignal):
        return [gen.full(b) for b in y.bands]
    if isinstance(y, dsp.Signal):
        return [gen.full(y)]
    if isinstance(y, dsp.Spectrum):
        return [y.spectral_data]
    raise TypeError(type(y))


def first(y):
    return arrays(y[0])


def second(y):
    return [np.atleast_1d(y[1])]


def itself(y):
    return [np.asarray(y)]


def axis(k, pick=None):
    return lambda y: [np.moveaxis(np.asarray(y if pick is None else y[pick]), k, -1)]


def op(name, kinds="SRM", out=arrays, linear=True, channels=True, tol=1e-9, same_type=True, complex_ok=False, loud=False):
    def deco(fn):
        OPS[name] = Op(name, fn, kinds, out, linear, channels, tol, same_type, complex_ok, loud)
        return fn
    return deco


def dur(s):
    return s.bands[0] if isinstance(s, dsp.MultiBandSignal) else s


# --------------------------------------------------------------- standard
@op("pad_trim", complex_ok=True)
def _(ctx, s):
    n, e = ctx.int("length", 20, 2 * len(dur(s))), ctx.flag("end")
    return lambda x, sel: dsp.pad_trim(x, n, e)


@op("delay", complex_ok=True)
def _(ctx, s):
    d, k = ctx.int("delay", 0, len(dur(s)) // 2), ctx.flag("keep")
    return lambda x, sel: dsp.delay(x, d, None, k)


@op("fractional_delay", tol=1e-8)
def _(ctx, s):
    d, k = ctx.uniform("delay_s", 0, 0.2 * dur(s).length_seconds), ctx.flag("keep")
    o, sl = ctx.int("order", 4, 40), ctx.uniform("suppression", 40, 80)
    return lambda x, sel: dsp.fractional_delay(x, d, None, k, o, sl)


@op("detrend", tol=1e-8)
def _(ctx, s):
    o = ctx.int("order", 0, 4)
    return lambda x, sel: dsp.detrend(x, o)


@op("fade", kinds="SR")
def _(ctx, s):
    t = ctx.pick("fade", [FadeType.Linear, FadeType.Logarithmic, FadeType.Exponential])
    ln = ctx.uniform("fade_s", 0.01, 0.4) * dur(s).length_seconds
    a, b = ctx.flag("at_start"), ctx.flag("at_end")
    return lambda x, sel: dsp.fade(x, t, ln, a or not b, b)


@op("normalize_each", linear=False)
def _(ctx, s):
    l, p = ctx.uniform("dbfs", -30, 0), ctx.flag("peak")
    return lambda x, sel: dsp.normalize(x, l, p, True)


@op("normalize_all", linear=False, channels=False)
def _(ctx, s):
    l, p = ctx.uniform("dbfs", -30, 0), ctx.flag("peak")
    return lambda x, sel: dsp.normalize(x, l, p, False)


@op("gain", complex_ok=True, loud=True)
def _(ctx, s):
    g = ctx.uniform("gain", -20, 20)
    return lambda x, sel: dsp.apply_gain(x, g)


@op("gains", complex_ok=True, loud=True)
def _(ctx, s):
    g = ctx.rng.uniform(-20, 20, dur(s).number_of_channels)
    return lambda x, sel: dsp.apply_gain(x, g[sel])


@op("modify_length", complex_ok=True)
def _(ctx, s):
    t = dur(s).length_seconds
    a, b = ctx.uniform("start", -0.3, 0.4) * t, ctx.uniform("end", 0.6, 1.4) * t
    return lambda x, sel: dsp.modify_signal_length(x, a, b)


@op("trim_time", complex_ok=True)
def _(ctx, s):
    t = dur(s).length_seconds
    a, b = ctx.uniform("start", 0, 0.4) * t, ctx.uniform("end", 0.6, 0.95) * t
    i = ctx.flag("inclusive")
    return lambda x, sel: dsp.trim_with_time_selection(x, a, b, i)


@op("trim_level", kinds="SR", channels=False, out=first, linear=False)
def _(ctx, s):
    t = ctx.uniform("threshold", -60, -20)
    return lambda x, sel: dsp.trim_with_level_threshold(x, t)


@op("resample", kinds="SR", tol=1e-8)
def _(ctx, s):
    fs = ctx.pick("new_rate", [4000, 12000, 24000, 44100, 64000])
    r = ctx.flag("rescale")
    return lambda x, sel: dsp.resample(x, fs, r)


@op("envelope", out=lambda y: [np.asarray(v) for v in (y if isinstance(y, list) else [y])], same_type=False)
def _(ctx, s):
    a = ctx.flag("analytic")
    w = None if a else ctx.int("window", 3, 200)
    return lambda x, sel: dsp.envelope(x, a, w)


@op("rms", out=lambda y: [np.atleast_2d(y)], linear=False, same_type=False)
def _(ctx, s):
    d = ctx.flag("db")
    return lambda x, sel: dsp.rms(x, d)


@op("crest", out=lambda y: [np.atleast_2d(y)], linear=False, same_type=False)
def _(ctx, s):
    d, t = ctx.flag("db"), ctx.flag("true_peak")
    return lambda x, sel: dsp.crest_factor(x, d, t)


@op("true_peak", out=lambda y: [np.atleast_2d(y[0]), np.atleast_2d(y[1])], linear=False, same_type=False)
def _(ctx, s):
    return lambda x, sel: dsp.true_peak_level(x)


@op("append", kinds="SR", complex_ok=True)
def _(ctx, s):
    e = ctx.flag("end")
    return lambda x, sel: dsp.append_signals([x, dsp.apply_gain(x, -6.0), dsp.pad_trim(x, len(x) - 3)], True, e).get_channels(np.arange(2 * x.number_of_channels))


OPS["append"].channels = False  # the number of channels changes


# -------------------------------------------------------------- containers
@op("get_channels", complex_ok=True, channels=False)
def _(ctx, s):
    c = dur(s).number_of_channels
    i = ctx.rng.permutation(c)[: ctx.int("pick", 1, c)]
    return lambda x, sel: x.get_channels(i) if not isinstance(x, dsp.MultiBandSignal) else dsp.MultiBandSignal([b.get_channels(i) for b in x.bands])


@op("sum_channels", complex_ok=True, channels=False, kinds="SR", loud=True)
def _(ctx, s):
    return lambda x, sel: x.copy().sum_channels()


@op("copy", complex_ok=True)
def _(ctx, s):
    return lambda x, sel: x.copy()


@op("collapse", kinds="M", same_type=False, loud=True, complex_ok=True)
def _(ctx, s):
    return lambda x, sel: x.collapse()


@op("all_bands", kinds="M", same_type=False)
def _(ctx, s):
    c = ctx.int("channel", 0, dur(s).number_of_channels - 1)
    return lambda x, sel: x.get_all_bands(c)


OPS["all_bands"].channels = False


@op("from_signal", kinds="SR", same_type=False)
def _(ctx, s):
    return lambda x, sel: dsp.ImpulseResponse.from_signal(x)


# ----------------------------------------------------------------- filters
def a_filter(ctx, fs):
    k = ctx.pick("filter", ["iir", "fir", "biquad"])
    if k == "iir":
        return dsp.Filter.iir_filter(ctx.int("order", 1, 6), ctx.uniform("f", 0.02, 0.4) * fs, dsp.FilterPassType.Lowpass, sampling_rate_hz=fs)
    if k == "fir":
        return dsp.Filter.fir_filter(ctx.int("order", 4, 80), ctx.uniform("f", 0.02, 0.4) * fs, dsp.FilterPassType.Highpass if False else dsp.FilterPassType.Lowpass, sampling_rate_hz=fs)
    return dsp.Filter.biquad(dsp.BiquadEqType.Peaking, ctx.uniform("f", 0.02, 0.4) * fs, ctx.uniform("gain", -12, 12), ctx.uniform("q", 0.4, 4), fs)


@op("filter", tol=1e-9, loud=True)
def _(ctx, s):
    f = a_filter(ctx, s.sampling_rate_hz)
    zp = ctx.flag("zero_phase", 0.3)
    if isinstance(s, dsp.MultiBandSignal):
        def g(x, sel):
            y = x.copy()
            y.bands = [f.filter_signal(b, zero_phase=zp) for b in x.bands]
            return y
        return g
    return lambda x, sel: f.filter_signal(x, zero_phase=zp)


@op("filter_one_channel", kinds="SR", channels=False)
def _(ctx, s):
    f = a_filter(ctx, s.sampling_rate_hz)
    c = ctx.int("channel", 0, s.number_of_channels - 1)
    return lambda x, sel: f.filter_signal(x, c)


def a_bank(ctx, fs):
    return dsp.FilterBank([dsp.Filter.iir_filter(2, 0.1 * fs, dsp.FilterPassType.Lowpass, sampling_rate_hz=fs), dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 0.2 * fs, 4.0, 1.0, fs), dsp.Filter.fir_filter(16, 0.3 * fs, dsp.FilterPassType.Lowpass, sampling_rate_hz=fs)])


@op("bank", kinds="SR", same_type=False, loud=True)
def _(ctx, s):
    b = a_bank(ctx, s.sampling_rate_hz)
    m = ctx.pick("mode", list(dsp.FilterBankMode))
    return lambda x, sel: b.filter_signal(x, m)


@op("crossover", kinds="SR", same_type=False, tol=1e-8)
def _(ctx, s):
    fs = s.sampling_rate_hz
    b = fb.linkwitz_riley_crossovers([0.05 * fs, 0.2 * fs], [4, 4], fs)
    return lambda x, sel: b.filter_signal(x, dsp.FilterBankMode.Parallel)


@op("gammatone", kinds="SR", same_type=False, tol=1e-8)
def _(ctx, s):
    b = fb.auditory_filters_gammatone([200, s.sampling_rate_hz * 0.3], 2.0, s.sampling_rate_hz)
    return lambda x, sel: b.filter_signal(x, dsp.FilterBankMode.Parallel)


# -------------------------------------------------------------- transforms
@op("hilbert", tol=1e-9)
def _(ctx, s):
    return lambda x, sel: tr.hilbert(x)


@op("laguerre", kinds="SR", tol=1e-8)
def _(ctx, s):
    w = ctx.uniform("warp", -0.7, 0.7)
    return lambda x, sel: tr.laguerre(dsp.pad_trim(x, 200), w)


@op("warp", kinds="SR", tol=1e-8)
def _(ctx, s):
    w = ctx.uniform("warp", -0.6, 0.6)
    return lambda x, sel: tr.warp(dsp.pad_trim(x, 200), w, False, 300)


@op("cepstrum", kinds="R", out=itself, linear=False, same_type=False, tol=1e-7)
def _(ctx, s):
    c = ctx.flag("complex")
    return lambda x, sel: tr.cepstrum(x, c)


@op("dft", kinds="SR", out=itself, same_type=False, tol=1e-8)
def _(ctx, s):
    f = np.sort(ctx.rng.uniform(0, s.sampling_rate_hz / 2, ctx.int("bins", 1, 30)))
    return lambda x, sel: tr.dft(x, f)


@op("cwt", kinds="SR", out=itself, same_type=False, tol=1e-8)
def _(ctx, s):
    f = np.geomspace(0.02, 0.3, 5) * s.sampling_rate_hz
    w = tr.MorletWavelet(b=ctx.uniform("b", 2, 8), step=5e-3)
    y = ctx.flag("squeezed", 0.3)
    return lambda x, sel: tr.cwt(dsp.pad_trim(x, min(len(x), 1500)), f, w, None, y)


OPS["cwt"].linear = False


@op("vqt", kinds="SR", out=axis(2, 1), same_type=False, tol=1e-7)
def _(ctx, s):
    g = ctx.uniform("gamma", 0, 60)
    return lambda x, sel: tr.vqt(x, np.arange(x.number_of_channels), 1.0, g, [3, 5], 12)


@op("stft", kinds="SR", out=lambda y: [y[2]], same_type=False)
def _(ctx, s):
    p = gen.random_spectrogram_params(ctx, len(s))
    def g(x, sel):
        y = x.copy()
        y.set_spectrogram_parameters(**p)
        return y.get_spectrogram()
    return g


OPS["stft"].linear = False


@op("spectrum", kinds="SR", out=axis(1, 1), same_type=False, linear=False)
def _(ctx, s):
    p = gen.random_spectrum_params(ctx, len(s))
    def g(x, sel):
        y = x.copy()
        y.set_spectrum_parameters(**p)
        f, sp = y.get_spectrum()
        return f, sp.reshape(len(f), -1)
    return g


@op("spectrum_object", kinds="SR", same_type=False, linear=False)
def _(ctx, s):
    p = gen.random_spectrum_params(ctx, len(s))
    def g(x, sel):
        y = x.copy()
        y.set_spectrum_parameters(**p)
        return dsp.Spectrum.from_signal(y)
    return g


@op("via_filterbank", kinds="SR", same_type=False, tol=1e-7)
def _(ctx, s):
    f = np.geomspace(0.01, 0.3, 4) * s.sampling_rate_hz
    z = ctx.flag("zero_phase")
    return lambda x, sel: tr.spectrum_via_filterbank(x, f, 1.0, None, 4, z)


@op("lpc", kinds="S", out=axis(2, 0), same_type=False, linear=False, tol=1e-6)
def _(ctx, s):
    b = ctx.flag("burg")
    return lambda x, sel: tr.lpc(x, 4, 128, False, b)


# ------------------------------------------------------- transfer functions
def spectral_pair(ctx, s):
    n = len(s)
    e = s.copy_with_new_time_data(ctx.rng.normal(size=(n, 1)))
    return e


@op("deconvolve", kinds="S", same_type=False, tol=1e-7)
def _(ctx, s):
    n, c = len(s), s.number_of_channels
    x1 = dsp.Signal(None, ctx.rng.normal(size=(n, 1)) * 0.2, s.sampling_rate_hz)
    xm = dsp.Signal(None, ctx.rng.normal(size=(n, c)) * 0.2, s.sampling_rate_hz)
    one = ctx.flag("single_input")
    r, p, k = ctx.flag("regularize"), ctx.flag("pad"), ctx.flag("keep")
    rg = None if not r else [0.02 * s.sampling_rate_hz, 0.4 * s.sampling_rate_hz]
    return lambda x, sel: tf.spectral_deconvolve(x, x1 if one else xm.get_channels(sel), r, rg, -30.0, p, k and p)


@op("transfer_function", kinds="S", same_type=False, tol=1e-8)
def _(ctx, s):
    n, c = len(s), s.number_of_channels
    xm = dsp.Signal(None, ctx.rng.normal(size=(n, c)) * 0.2, s.sampling_rate_hz)
    one = ctx.flag("single_input")
    m = ctx.pick("estimator", list(tf.TransferFunctionType))
    return lambda x, sel: tf.compute_transfer_function(x, xm.get_channels(0) if one else xm.get_channels(sel), 128, m)


@op("window_ir", kinds="R", out=first, channels=True)
def _(ctx, s):
    n = ctx.int("total", 60, len(s))
    a, st = ctx.flag("adaptive"), ctx.flag("at_start")
    return lambda x, sel: tf.window_ir(x, n, a, 0.6, at_start=st)


@op("window_centered", kinds="R", out=first)
def _(ctx, s):
    n = ctx.int("total", 60, len(s))
    return lambda x, sel: tf.window_centered_ir(x, n)


@op("window_tukey", kinds="R")
def _(ctx, s):
    t = s.length_seconds
    a, b = ctx.uniform("left", 0.02, 0.3) * t, ctx.uniform("right", 0.05, 0.5) * t
    return lambda x, sel: tf.window_ir_tukey(x, a, b)


@op("trim_ir", kinds="R", out=first, channels=False)
def _(ctx, s):
    return lambda x, sel: tf.trim_ir(x, None, 0.01)


@op("average_irs", kinds="R", channels=False)
def _(ctx, s):
    t, e = ctx.flag("time"), ctx.flag("energy")
    return lambda x, sel: tf.average_irs(x, t, e)


OPS["average_irs"].linear = False


@op("min_phase_ir", kinds="R", tol=1e-6)
def _(ctx, s):
    r = ctx.flag("real_cepstrum", 0.8)
    return lambda x, sel: tf.min_phase_ir(x, r)


@op("with_dirac", kinds="R", linear=False, channels=False)
def _(ctx, s):
    lo = ctx.flag("lower")
    return lambda x, sel: tf.combine_ir_with_dirac(x, 0.1 * x.sampling_rate_hz, lo, 4)


@op("complex_smoothing", kinds="R", same_type=False, linear=False, tol=1e-8)
def _(ctx, s):
    d, o = ctx.pick("domain", list(tf.SmoothingDomain)), ctx.pick("octave", [1.0, 3.0, 6.0])
    return lambda x, sel: tf.complex_smoothing(dsp.pad_trim(x, min(len(x), 600)), o, d)


@op("fdw", kinds="R", same_type=False, tol=1e-8)
def _(ctx, s):
    c = ctx.int("cycles", 2, 12)
    return lambda x, sel: tf.window_frequency_dependent(dsp.pad_trim(x, min(len(x), 600)), c)


@op("group_delay", kinds="SR", out=axis(1, 1), same_type=False, linear=False, tol=1e-5)
def _(ctx, s):
    a = ctx.flag("analytic")
    sm = ctx.pick("smoothing", [0, 3])
    return lambda x, sel: tf.group_delay(x, a, sm)


@op("minimum_phase", kinds="R", out=axis(1, 1), same_type=False, linear=False, tol=1e-5)
def _(ctx, s):
    return lambda x, sel: tf.minimum_phase(x)


@op("minimum_group_delay", kinds="R", out=axis(1, 1), same_type=False, linear=False, tol=1e-5)
def _(ctx, s):
    return lambda x, sel: tf.minimum_group_delay(x)


@op("excess_group_delay", kinds="R", out=axis(1, 1), same_type=False, linear=False, tol=1e-5)
def _(ctx, s):
    return lambda x, sel: tf.excess_group_delay(x, 0, False)


@op("ir_latency", kinds="R", out=lambda y: [np.atleast_1d(y)], same_type=False, linear=False, tol=1e-6)
def _(ctx, s):
    m = ctx.flag("min_phase")
    return lambda x, sel: tf.find_ir_latency(x, m)


@op("ir_to_filter", kinds="R", out=lambda y: [np.array([f.ba[0] for f in (y.filters if isinstance(y, dsp.FilterBank) else [y])]).T], same_type=False)
def _(ctx, s):
    return lambda x, sel: tf.ir_to_filter(x, None)


# ---------------------------------------------------------- room acoustics
@op("reverb_time", kinds="R", out=lambda y: [np.atleast_1d(y[0]), np.atleast_1d(y[1])], same_type=False, linear=False, tol=1e-7)
def _(ctx, s):
    m = ctx.pick("mode", list(ra.ReverbTime))
    t = ctx.flag("trim", 0.3)
    return lambda x, sel: ra.reverb_time(x, m, None, t)


@op("descriptors", kinds="R", out=lambda y: [np.atleast_1d(y)], same_type=False, linear=False, tol=1e-7)
def _(ctx, s):
    m = ctx.pick("descriptor", [d for d in ra.RoomAcousticsDescriptor if d != ra.RoomAcousticsDescriptor.BassRatio])  # (needs long responses)
    t = ctx.flag("trim", 0.3)
    return lambda x, sel: ra.descriptors(x, m, t)


@op("ir_start", kinds="R", out=lambda y: [np.atleast_1d(y)], same_type=False, linear=False)
def _(ctx, s):
    t = ctx.uniform("threshold", -40, -6)
    return lambda x, sel: ra.find_ir_start(x, t)


@op("convolve_rir", kinds="S", linear=False, tol=1e-8)
def _(ctx, s):
    n, c = 300, s.number_of_channels
    r = ctx.rng.normal(size=(n, 1)) * np.exp(-np.arange(n) / 60)[:, None]
    rir = dsp.ImpulseResponse(None, r, s.sampling_rate_hz, constrain_amplitude=False)
    p, k = ctx.flag("peak"), ctx.flag("keep")
    return lambda x, sel: ra.convolve_rir_on_signal(x, rir, p, k)


# ----------------------------------------------------------------- effects
def effect(name, make, **kw):
    @op("fx_" + name, kinds="SM", linear=False, **kw)
    def _(ctx, s):
        e = make(ctx, s)
        return lambda x, sel: e.apply(x)


effect("compressor", lambda ctx, s: fx.Compressor(ctx.uniform("threshold", -30, -5), ctx.uniform("attack", 0.5, 20), ctx.uniform("release", 5, 80), ctx.uniform("ratio", 1.5, 8), ctx.flag("relative")))
effect("distortion", lambda ctx, s: fx.Distortion(ctx.uniform("level", 0, 40), ctx.uniform("post", -6, 6), ctx.pick("kind", list(fx.DistortionType)[:3])))
effect("tremolo", lambda ctx, s: fx.Tremolo(ctx.uniform("depth", 0, 1), fx.LFO(ctx.uniform("rate", 0.5, 20), "harmonic", False, ctx.uniform("smooth", 0, 5))))
effect("delay", lambda ctx, s: fx.DigitalDelay(ctx.uniform("ms", 1, 40), ctx.uniform("feedback", 0, 0.8)))
effect("chorus", lambda ctx, s: fx.Chorus(ctx.uniform("depth", 0.2, 2), ctx.uniform("base", 4, 9), fx.LFO(ctx.uniform("rate", 0.5, 20), "harmonic", False, ctx.uniform("smooth", 0, 5)), ctx.uniform("mix", 0, 100)))
effect("subtractor", lambda ctx, s: fx.SpectralSubtractor(ctx.flag("adaptive"), -40, 0.02))


def pool(kind, **flags):
    """Names of the operations for one kind of object."""
    return [n for n, o in OPS.items() if kind in o.kinds and all(getattr(o, k) == v for k, v in flags.items())]
