"""P01: processing never alters its inputs and returns independent objects.

The entry points of the library are wrapped by an observer (rtm.watch).  The executions it observes are those which the workloads of all the other
checks produce - their own verdicts are ignored here - and direct ones: every registered signal operation, and calls whose parameters leave nothing to do.
"""

import importlib
import os

import numpy as np
import dsptoolbox as dsp
import matplotlib.pyplot as plt
from dsptoolbox.standard.enums import FadeType
from rtm import watch, gen, ops
from rtm.snap import arrays, containers, diff, shared, snap
from rtm.core import Ctx, Family, Stop

PROPERTY = "P01"


class Muted(Ctx):
    """Choices of another check's workload; its verdicts do not count here."""

    def fail(self, key, msg=""):
        return False

    def ok(self, key, cond, msg=""):
        return bool(cond)

    def raises(self, key, fn, msg="", exc=Exception):
        try:
            fn()
        except exc:
            pass
        return True

    def close(self, *a, **k):
        return True

    def equal(self, *a, **k):
        return True


class observed:
    def __init__(self, ctx, vary=True):
        self.ctx, self.vary = ctx, vary

    def __enter__(self):
        watch.install()
        watch.STATE.update(sink=self.ctx, vary=self.ctx.rng if self.vary else None, depth=0)

    def __exit__(self, *e):
        watch.STATE.update(sink=None, vary=None, depth=0)


def under(number, skip=()):
    """The workloads of another check, observed."""

    def run(ctx):
        mod = importlib.import_module(f"rtm.checks.p{number:02d}")
        fams = [f for f in mod.FAMILIES if f.name not in skip]
        w = np.array([f.quick for f in fams], float) ** 0.5
        f = fams[ctx.rng.choice(len(fams), p=w / w.sum())]
        ctx.note(f.name)
        inner = Muted(f.name, ctx.index, int(ctx.rng.integers(1 << 30)))
        inner.choices = ctx.choices
        with observed(ctx):
            try:
                f.fn(inner)
            except Exception as e:
                ctx.event(f"workload_ended:{type(e).__name__}")
        ctx.event("workloads")

    return run


OTHERS = [n for n in range(2, 37) if os.path.exists(os.path.join(os.path.dirname(__file__), f"p{n:02d}.py"))]
FAMILIES = [Family(f"P{n:02d}", under(n), 24, 500) for n in OTHERS]


def a_signal(ctx, kind=None, cx=None, nmax=3000):
    """A signal, impulse response or multiband signal with settings other than the defaults."""
    kind = kind or ctx.pick("kind", ["S", "R", "M"])
    fs = ctx.pick("fs", [16000, 44100, 48000])
    n, c = ctx.int("n", 1600, nmax), ctx.int("ch", 1, 4)
    cls = dsp.ImpulseResponse if kind == "R" else dsp.Signal

    def one(i):
        if kind == "R":
            x = np.zeros((n, c))
            t = np.arange(n)
            for k in range(c):
                d = int(ctx.rng.integers(5, 60))
                h = ctx.rng.normal(size=n - d) * np.exp(-t[: n - d] / (n * ctx.rng.uniform(0.05, 0.12)))
                h[0] = 3
                x[d:, k] = h * ctx.rng.uniform(0.1, 1.5)
        else:
            x = gen.content(ctx, n, c, fs)
        if cx:
            x = x + 0.2j * ctx.rng.normal(size=x.shape)
        return cls(None, x, fs, constrain_amplitude=con, activate_cache=cache)

    con, cache = ctx.flag("constrained", 0.3), ctx.flag("cache", 0.4)
    bands = [one(i) for i in range(ctx.int("bands", 1, 3) if kind == "M" else 1)]
    for b in bands:
        if ctx.flag("settings", 0.5):
            ops.silent(lambda: b.set_spectrum_parameters(**gen.random_spectrum_params(ctx, n)))
            ops.silent(lambda: b.set_spectrogram_parameters(**gen.random_spectrogram_params(ctx, n)))
        if cache and not cx and ctx.flag("read", 0.6):
            ops.silent(lambda: (b.get_spectrum(), b.get_spectrogram(), b.time_vector_s))
        if kind == "R" and ctx.flag("window", 0.4):
            b.set_window(ctx.rng.uniform(0.5, 1, (n, c)))
    return dsp.MultiBandSignal(bands) if kind == "M" else bands[0]


def operation(kind, name):
    def run(ctx):
        o = ops.OPS[name]
        s = a_signal(ctx, kind, o.complex_ok and ctx.flag("complex", 0.4))
        f = o.make(ctx, s)
        before = snap(s)
        try:
            with observed(ctx):
                y = ops.silent(f, s, np.arange(ops.dur(s).number_of_channels))
        except Exception as e:
            ctx.event(f"operation_ended:{type(e).__name__}")
            return
        ctx.event("operations")
        d = diff(before, snap(s))
        ctx.ok(f"input/{name}", d is None, f"{d}")
        edit(y)
        d = diff(before, snap(s))
        ctx.ok(f"edited_result/{name}", d is None, f"{d}")

    return run


def edit(y):
    """Change everything which a result consists of, in place."""
    for _, a in list(arrays(y)):
        if a.flags.writeable and a.dtype.kind in "fciu":
            a *= 0
            a += 1
    for _, o in list(containers(y)):
        if isinstance(o, dict):
            o["_edited"] = 1
        else:
            o.append(None)


def nothing(ctx):
    """Calls which have little or nothing to do."""
    kind = ctx.pick("kind", ["S", "R"])
    s = a_signal(ctx, kind, False)
    n, c, fs = len(s), s.number_of_channels, s.sampling_rate_hz
    m = dsp.MultiBandSignal([s.copy()])
    mr = dsp.MultiBandSignal([s.copy(), dsp.resample(s, fs // 2)], same_sampling_rate=False)
    f = dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 0.1 * fs, 3.0, 1.0, fs)
    b = dsp.FilterBank([f.copy()])
    sp = dsp.Spectrum(np.linspace(0, fs / 2, 65), ctx.rng.uniform(0.1, 1, (65, c)))
    loud = s.copy_with_new_time_data(0.5 * s.time_data / max(np.max(np.abs(s.time_data)), 1e-9))
    calls = {
        "pad_trim": (s, lambda: dsp.pad_trim(s, n)),
        "pad_trim_bands": (m, lambda: dsp.pad_trim(m, n)),
        "resample": (s, lambda: dsp.resample(s, fs)),
        "delay": (s, lambda: dsp.delay(s, 0)),
        "delay_bands": (m, lambda: dsp.delay(m, 0)),
        "fractional_delay": (s, lambda: dsp.fractional_delay(s, 0.0)),
        "fractional_delay_none": (s, lambda: dsp.fractional_delay(s, 3 / fs, [0])),
        "gain": (s, lambda: dsp.apply_gain(s, 0.0)),
        "gain_bands": (m, lambda: dsp.apply_gain(m, 0.0)),
        "gain_filter": (f, lambda: dsp.apply_gain(f, ctx.pick("gain", [0.0, 3.0]))),
        "gain_bank": (b, lambda: dsp.apply_gain(b, ctx.pick("gain", [0.0, 3.0]))),
        "gain_spectrum": (sp, lambda: sp.copy().apply_gain(0.0)),
        "append": (s, lambda: dsp.append_signals([s, s])),
        "append_bands": (m, lambda: dsp.append_signals([m, m])),
        "append_spectra": (sp, lambda: dsp.append_spectra([sp, sp])),
        "append_filterbanks": (b, lambda: dsp.append_filterbanks([b, b])),
        "modify_length": (s, lambda: dsp.modify_signal_length(s, 0.0, s.length_seconds)),
        "trim_time": (s, lambda: dsp.trim_with_time_selection(s, None, s.length_seconds)),
        "trim_time_whole": (s, lambda: dsp.trim_with_time_selection(s, 0.0, s.length_seconds)),
        "trim_level": (loud, lambda: dsp.trim_with_level_threshold(loud, -300.0)),
        "fade": (s, lambda: dsp.fade(s, FadeType.Linear, 2 / fs, True, False)),
        "normalize": (loud, lambda: dsp.normalize(loud, 20 * np.log10(0.5))),
        "normalize_bands": (m, lambda: dsp.normalize(m, -3.0)),
        "detrend": (s, lambda: dsp.detrend(s, 0)),
        "resample_filter": (f, lambda: dsp.resample_filter(f, fs)),
        "merge_two": (f, lambda: dsp.merge_filters([f, f])),
        "copy": (s, lambda: s.copy()),
        "copy_empty": (s, lambda: s.copy_with_new_time_data(np.array(s.time_data))),
        "copy_own_data": (s, lambda: s.copy_with_new_time_data(s.time_data)),
        "new_of_own_data": (s, lambda: type(s)(None, s.time_data, fs, constrain_amplitude=False)),
        "all_channels": (s, lambda: s.get_channels(np.arange(c))),
        "one_channel": (s, lambda: s.get_channels(0)),
        "sum_one": (s, lambda: s.get_channels([0]).sum_channels()),
        "from_signal": (s, lambda: dsp.ImpulseResponse.from_signal(s)),
        "collapse": (m, lambda: m.collapse()),
        "all_bands": (m, lambda: m.get_all_bands(0)),
        "multiband_copy": (m, lambda: m.copy()),
        "multirate_bands": (mr, lambda: mr.get_all_bands(0)),
        "multirate_time": (mr, lambda: mr.get_all_time_data()),
        "multirate_copy": (mr, lambda: mr.copy()),
        "multiband_time": (m, lambda: m.get_all_time_data()),
        "spectrum_copy": (sp, lambda: sp.copy()),
        "spectrum_channels": (sp, lambda: sp.get_channels(np.arange(c))),
        "spectrum_same_bins": (sp, lambda: sp.get_interpolated_spectrum(sp.frequency_vector_hz, dsp.SpectrumType.Magnitude)),
        "spectrum_resample": (sp, lambda: sp.copy().resample(sp.frequency_vector_hz)),
        "spectrum_smoothing": (sp, lambda: sp.copy().apply_octave_smoothing(1.0)),
        "spectrum_trim": (sp, lambda: sp.copy().trim(None, None)),
        "spectrum_new": (sp, lambda: dsp.Spectrum(sp.frequency_vector_hz, sp.spectral_data)),
        "filter_copy": (f, lambda: f.copy()),
        "bank_copy": (b, lambda: b.copy()),
        "filter_zero_gain": (s, lambda: dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 0.1 * fs, 0.0, 1.0, fs).filter_signal(s)),
        "filter_no_channels": (s, lambda: f.filter_signal(s, 0)),
        "bank_one": (s, lambda: b.filter_signal(s, dsp.FilterBankMode.Sequential)),
        "bank_one_summed": (s, lambda: b.filter_signal(s, dsp.FilterBankMode.Summed)),
        "coefficients": (f, lambda: f.get_coefficients(ctx.pick("representation", list(dsp.FilterCoefficientsType)))),
        "filter_ir": (f, lambda: f.get_ir(64)),
        "smoothing": (sp, lambda: dsp.tools.fractional_octave_smoothing(sp.spectral_data, 1.0, 1e9)),
        "to_db": (sp, lambda: dsp.tools.to_db(sp.spectral_data, True)),
        "wrap": (sp, lambda: dsp.tools.wrap_phase(sp.spectral_data)),
        "scale": (sp, lambda: dsp.tools.scale_spectrum(sp.spectral_data, ctx.pick("mode", list(dsp.SpectrumScaling)), 128, fs, np.ones(128))),
        "sample_format": (s, lambda: dsp.tools.convert_sample_representation(s.time_data, "f64", "f32", ctx.flag("flush"))),
        "framed": (s, lambda: dsp.tools.framed_signal(s.time_data, n, n)),
        "interpolate": (sp, lambda: dsp.tools.interpolate_fr(sp.frequency_vector_hz, sp.spectral_data[:, 0], sp.frequency_vector_hz)),
        "warp_0": (s, lambda: dsp.transforms.warp(dsp.pad_trim(s, 64), 0.0, False)),
        "laguerre_0": (s, lambda: dsp.transforms.laguerre(dsp.pad_trim(s, 64), 0.0)),
        "hilbert": (s, lambda: dsp.transforms.hilbert(s)),
        "average_one": (s, lambda: dsp.transfer_functions.average_irs(s.get_channels([0]) if kind == "R" else s)),
        "get_spectrum": (s, lambda: s.get_spectrum()),
        "get_spectrogram": (s, lambda: s.get_spectrogram()),
        "get_csm": (s, lambda: s.get_csm()),
    }
    label = ctx.pick("call", sorted(calls))
    given, call = calls[label]
    before = snap(given)
    image = behaviour(given)
    try:
        with observed(ctx):
            y = ops.silent(call)
    except Exception as e:
        ctx.event(f"refused:{label}:{type(e).__name__}")
        return
    ctx.event("calls")
    d = diff(before, snap(given))
    ctx.ok(f"input/{label}", d is None, f"{d}")
    m_ = shared(y, [given])
    ctx.ok(f"memory/{label}", m_ is None, f"{m_}")
    edit(y)
    d = diff(before, snap(given))
    ctx.ok(f"edited_result/{label}", d is None, f"{d}")
    d = diff(image, behaviour(given))
    ctx.ok(f"behaviour/{label}", d is None, f"{d}")


def behaviour(o):
    """What is computed from an object."""
    with np.errstate(all="ignore"):
        if isinstance(o, dsp.MultiBandSignal):
            return [behaviour(b) for b in o.bands]
        if isinstance(o, dsp.Signal):
            out = [ops.silent(o.get_spectrum), ops.silent(o.get_spectrogram)] if not o.is_complex_signal else []
            if o.number_of_channels > 1 and not o.is_complex_signal:
                out.append(ops.silent(lambda: o.copy().get_csm()))
            return snap(out)
        if isinstance(o, dsp.Spectrum):
            return snap(o.get_energy())
        if isinstance(o, dsp.FilterBank):
            return [behaviour(f) for f in o.filters]
        return snap(ops.silent(lambda: o.get_ir(64).time_data))


def arrays_given(ctx):
    """Arrays, lists and objects given to constructors and setters stay the caller's own."""
    fs = 16000
    c, n = ctx.int("ch", 1, 3), ctx.int("n", 64, 256)
    ty = ctx.pick("dtype", ["float64", "float32", "int16", "complex128"])
    order = ctx.pick("order", ["C", "F", "view"])
    x = (100 * ctx.rng.normal(size=(n, c))).astype(ty) if ty != "complex128" else ctx.rng.normal(size=(n, c)) + 1j * ctx.rng.normal(size=(n, c))
    if ty[0] in "fc":
        x /= 2 * np.max(np.abs(x))
    x = np.asfortranarray(x) if order == "F" else np.repeat(x, 2, axis=0)[::2] if order == "view" else x
    cls = ctx.pick("class", [dsp.Signal, dsp.ImpulseResponse])
    f = np.linspace(0, fs / 2, n)
    s0 = cls(None, ctx.rng.normal(size=(n, c)), fs, constrain_amplitude=False)
    w = ctx.rng.uniform(0.1, 1, n)
    taps = np.ascontiguousarray(x[:, 0].real.astype(float))
    sos = dsp.Filter.iir_filter(4, 2000, dsp.FilterPassType.Lowpass, sampling_rate_hz=fs).sos.copy()
    con = ctx.flag("constrained")

    def later(make, change):
        o = make
        change(o)
        return o

    mag = np.abs(x) + 0.1
    gl = [s0.copy(), s0.copy()]
    makers = {
        "constructor": (x, lambda a: cls(None, a, fs, constrain_amplitude=con)),
        "from_time_data": (x, lambda a: cls.from_time_data(a, fs, con)),
        "time_data": (x, lambda a: later(s0, lambda o: setattr(o, "time_data", a))),
        "imaginary": (x.real.astype(float), lambda a: later(s0, lambda o: setattr(o, "time_data_imaginary", a))),
        "add_channel": (x[:, :1], lambda a: later(s0, lambda o: o.add_channel(None, a, fs))),
        "copy_with": (x, lambda a: s0.copy_with_new_time_data(a)),
        "window": (np.tile(w[:, None], (1, c)), lambda a: later(dsp.ImpulseResponse.from_signal(s0), lambda o: o.set_window(a))),
        "spectrum": ([f, mag], lambda a: dsp.Spectrum(*a)),
        "spectral_data": (mag, lambda a: later(dsp.Spectrum(f, np.ones((n, c))), lambda o: setattr(o, "spectral_data", a))),
        "frequencies": (f, lambda a: later(dsp.Spectrum(f.copy(), np.ones((n, c))), lambda o: setattr(o, "frequency_vector_hz", a))),
        "coherence": (np.abs(x.real) / (1 + np.abs(x.real)), lambda a: later(dsp.Spectrum(f, np.ones((n, c))), lambda o: o.set_coherence(a))),
        "spectrum_resample": (f[3:-3] * 0.9 + 1, lambda a: dsp.Spectrum(f, np.ones((n, c))).resample(a)),
        "fir": ([taps, np.ones(1)], lambda a: dsp.Filter({dsp.FilterCoefficientsType.Ba: a}, fs)),
        "from_ba": ([taps, np.ones(1)], lambda a: dsp.Filter.from_ba(a[0], a[1], fs)),
        "from_sos": (sos, lambda a: dsp.Filter.from_sos(a, fs)),
        "from_zpk": ([np.array([0.5 + 0.1j, 0.5 - 0.1j]), np.array([0.3 + 0.1j, 0.3 - 0.1j]), 1.0], lambda a: dsp.Filter.from_zpk(a[0], a[1], a[2], fs)),
        "multiband": (gl, lambda a: dsp.MultiBandSignal(a)),
    }
    label = ctx.pick("maker", sorted(makers))
    given, make = makers[label]
    before = snap(given)
    try:
        with observed(ctx):
            o = ops.silent(make, given)
    except Exception as e:
        ctx.event(f"refused:{label}:{type(e).__name__}")
        return
    ctx.event("constructed")
    d = diff(before, snap(given))
    ctx.ok(f"given_changed/{label}", d is None, f"{d}")
    # the caller goes on using its array
    image = snap(o)
    does = behaviour(o) if not (isinstance(o, dsp.Signal) and o.is_complex_signal) else None
    if label == "multiband":
        given.append(None)
        given[0] = None
    else:
        for _, a in list(arrays(given)):
            if a.flags.writeable:
                a[...] = 0
    d = diff(image, snap(o))
    ctx.ok(f"array_edited/{label}", d is None, f"{d}")
    if does is not None:
        d = diff(does, behaviour(o))
        ctx.ok(f"array_edited_behaviour/{label}", d is None, f"{d}")


def kept_orders(ctx):
    """Arrays of numbers in any order given as parameters."""
    fs = 48000
    p = ctx.rng.permutation
    s = dsp.Signal(None, ctx.rng.normal(size=(2000, 4)), fs)
    h = np.zeros((2000, 2))
    h[10] = 1
    h = dsp.ImpulseResponse(None, h + 0.001 * ctx.rng.normal(size=h.shape), fs, constrain_amplitude=False)
    rng2 = p(np.array([100.0, 8000.0])) if ctx.flag("reversed", 0.5) else np.array([100.0, 8000.0])
    f = p(np.geomspace(50, 15000, 9))
    mb = dsp.MultiBandSignal([s.copy(), s.copy(), s.copy()])
    bank = dsp.FilterBank([dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000.0 * k, 2.0, 1.0, fs) for k in (1, 2, 3)])
    sp = dsp.Spectrum(np.linspace(0, 24000, 300), ctx.rng.uniform(0.1, 1, (300, 3)))
    calls = {
        "fractional_octave_bands": lambda a: dsp.filterbanks.fractional_octave_bands(a, 1, sampling_rate_hz=fs),
        "reconstructing_bands": lambda a: dsp.filterbanks.reconstructing_fractional_octave_bands(1, a, sampling_rate_hz=fs),
        "gammatone": lambda a: dsp.filterbanks.auditory_filters_gammatone(a, 2.0, fs),
        "spectrum_trim": lambda a: sp.copy().trim(*a),
        "find_modes": lambda a: dsp.room_acoustics.find_modes(h, a, 1.0),
        "plot_magnitude": lambda a: s.plot_magnitude(range_hz=a),
        "plot_bode": lambda a: bank.plot_magnitude(1024, dsp.FilterBankMode.Parallel, range_hz=a),
        "filter_plot": lambda a: bank.filters[0].plot_magnitude(1024, range_hz=a),
        "group_delay_plot": lambda a: s.plot_group_delay(range_hz=a),
        "deconvolve": lambda a: dsp.transfer_functions.spectral_deconvolve(s, s.get_channels([0]), True, a),
        "fw_snr": lambda a: dsp.distances.fw_snr_seg(s, s, a),
        "log_spectral": lambda a: dsp.distances.log_spectral(s, s, f_range_hz=a),
        "lr": lambda a: dsp.filterbanks.linkwitz_riley_crossovers(a, [2] * len(a), fs),
        "dft": lambda a: dsp.transforms.dft(s, np.asarray(a)),
        "cwt": lambda a: dsp.transforms.cwt(s, a, dsp.transforms.MorletWavelet(b=4.0, step=5e-3)),
        "via_filterbank": lambda a: dsp.transforms.spectrum_via_filterbank(s, a, 1.0),
        "interpolated": lambda a: sp.get_interpolated_spectrum(np.sort(a), dsp.SpectrumType.Magnitude),
        "delay_channels": lambda a: dsp.delay(s, 5, a),
        "fractional_channels": lambda a: dsp.fractional_delay(s, 1e-3, a),
        "get_channels": lambda a: s.get_channels(a),
        "swap_channels": lambda a: s.copy().swap_channels(a),
        "filter_channels": lambda a: bank.filters[0].filter_signal(s, a),
        "swap_bands": lambda a: mb.copy().swap_bands(a),
        "swap_filters": lambda a: bank.copy().swap_filters(a),
        "gains": lambda a: dsp.apply_gain(s, a),
        "log_mean": lambda a: dsp.tools.log_mean(np.asarray(a)),
        "erb": lambda a: dsp.tools.erb_frequencies(a, 1.0),
        "warp_frequency": lambda a: dsp.tools.warp_frequency(a, 0.3, fs),
        "energy": lambda a: sp.get_energy(*a),
    }
    label = ctx.pick("call", sorted(calls))
    if label in ("lr", "dft", "cwt", "via_filterbank", "interpolated", "warp_frequency"):
        a = f[:3].copy() if label == "lr" else f.copy()
        a = np.sort(a) if label in ("cwt", "via_filterbank", "warp_frequency") else a
    elif label in ("delay_channels", "fractional_channels", "get_channels", "filter_channels"):
        a = p(4)[: ctx.int("count", 1, 4)]
    elif label == "swap_channels":
        a = p(4)
    elif label in ("swap_bands", "swap_filters"):
        a = p(3)
    elif label == "gains":
        a = ctx.rng.uniform(-3, 3, 4)
    else:
        a = rng2
    a = a.tolist() if ctx.flag("list", 0.4) else a
    before = snap(a)
    objs = snap([s, h, mb, bank, sp])
    try:
        with observed(ctx, vary=False):
            y = ops.silent(calls[label], a)
    except Exception as e:
        ctx.event(f"refused:{label}:{type(e).__name__}")
        y = None
    else:
        ctx.event("calls")
    plt.close("all")
    d = diff(before, snap(a))
    ctx.ok(f"parameter/{label}", d is None, f"{d}")
    d = diff(objs, snap([s, h, mb, bank, sp]))
    ctx.ok(f"objects/{label}", d is None, f"{d}")
    if y is not None and not isinstance(y, tuple):
        edit(y)
        d = diff(objs, snap([s, h, mb, bank, sp])) or diff(before, snap(a))
        ctx.ok(f"edited_result/{label}", d is None, f"{d}")


FAMILIES += [Family(f"{k}_{o.name}", operation(k, o.name), 5, 120) for o in ops.OPS.values() for k in o.kinds]
FAMILIES += [Family("nothing", nothing, 500, 12000), Family("arrays_given", arrays_given, 400, 10000), Family("kept_orders", kept_orders, 300, 8000)]
