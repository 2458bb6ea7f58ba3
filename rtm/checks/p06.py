"""P06: incompatible input is refused, and a refused call changes nothing.

Every builder draws objects in some state of their life and returns them with a table of calls that violate exactly one documented
precondition. A history of such calls is run against the objects; after each of them the objects are compared with their image before the call, and at
the end they are probed against deep copies that never saw an invalid call.
"""

import contextlib
import copy
import io
import os
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import dsptoolbox as dsp
from dsptoolbox import beamforming as bf
from dsptoolbox import distances as di
from dsptoolbox import effects as fx
from dsptoolbox import filterbanks as fb
from dsptoolbox import generators as ge
from dsptoolbox import room_acoustics as ra
from dsptoolbox import tools
from dsptoolbox import transfer_functions as tf
from dsptoolbox import transforms as tr
from dsptoolbox.standard.enums import FadeType
from rtm.core import Family
from rtm.snap import snap, diff
from rtm import gen
from rtm.checks.p10 import definition

PROPERTY = "P06"
Ba, Sos, Zpk = dsp.FilterCoefficientsType.Ba, dsp.FilterCoefficientsType.Sos, dsp.FilterCoefficientsType.Zpk
Par, Seq, Sum = dsp.FilterBankMode.Parallel, dsp.FilterBankMode.Sequential, dsp.FilterBankMode.Summed


@contextlib.contextmanager
def quiet():
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            yield
    finally:
        plt.close("all")


def setter(obj, name, value):
    return lambda: setattr(obj, name, value)


def sig(ctx, c=None, fs=None, n=None, cls=dsp.Signal, cplx=0.0, busy=True):
    """A signal somewhere in its life."""
    fs = fs or 48000
    c = c or ctx.pick("c", [1, 2, 3, 4])
    n = n or ctx.pick("n", [64, 100, 333, 1024])
    x = ctx.rng.normal(size=(n, c))
    if ctx.flag("complex", cplx):
        x = x + 1j * ctx.rng.normal(size=(n, c))
    s = cls(None, x * (0.3 if cls is dsp.ImpulseResponse else 1), fs, constrain_amplitude=ctx.flag("constrained", 0.3))
    s.info = {"a": 1}
    if busy:
        if ctx.flag("settings"):
            s.set_spectrum_parameters(ctx.pick("method", list(dsp.SpectrumMethod)), window_length_samples=32, scaling=ctx.pick("scaling", [dsp.SpectrumScaling.FFTBackward, dsp.SpectrumScaling.PowerSpectralDensity]))
            s.set_spectrogram_parameters(window_length_samples=32)
        if ctx.flag("read"):
            s.get_spectrum()
            s.time_vector_s
    return s


def refuse(ctx, calls, objs, probe=None, most=5):
    """Run some of the invalid calls and compare."""
    names = list(calls)
    k = min(len(names), ctx.int("calls", 1, most))
    chosen = [names[i] for i in ctx.rng.permutation(len(names))[:k]]
    ctx.note(f"{chosen}")
    twins = copy.deepcopy(objs)
    for name in chosen:
        before = snap(objs)
        with quiet():
            try:
                r = calls[name]()
                raised = None
            except Exception as e:
                raised = e
        ctx.ok(f"refused/{name}", raised is not None, f"returned {type(r).__name__ if raised is None else ''} {str(r)[:60] if raised is None and isinstance(r, (int, float, np.ndarray, tuple)) else ''}")
        d = diff(before, snap(objs))
        ctx.ok(f"unchanged/{name}", d is None, f"{d} after {type(raised).__name__}: {str(raised)[:80]}")
    if probe is not None:
        with quiet():
            a, b = probe(*objs), probe(*twins)
        for i, (x, y) in enumerate(zip(a, b)):
            x, y = np.asarray(x), np.asarray(y)
            ctx.ok("usable", x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"), f"result {i} differs after {chosen}")


def signal_probe(*objs):
    out = []
    for s in objs:
        if isinstance(s, dsp.MultiBandSignal):
            out += signal_probe(*s.bands) + [np.atleast_1d(s.sampling_rate_hz)]
        elif isinstance(s, dsp.Signal):
            s = s.copy() if False else s
            f, sp = s.get_spectrum()
            out += [f, sp, s.time_vector_s, s.time_data, np.array([s.amplitude_scale_factor])]
            if len(s) >= 64:
                t = s.copy().set_spectrogram_parameters(window_length_samples=32)
                out += list(t.get_spectrogram())
            if s.number_of_channels > 1 and s._spectrum_parameters["window_length_samples"] <= len(s):
                out += list(s.get_csm())
        elif isinstance(s, dsp.Spectrum):
            out += [s.frequency_vector_hz, s.spectral_data]
    return out


# ---------------------------------------------------------------- signals
def signals(ctx):
    cls = ctx.pick("cls", [dsp.Signal, dsp.Signal, dsp.ImpulseResponse])
    s = sig(ctx, cls=cls, cplx=0.2)
    n, c = len(s), s.number_of_channels
    if cls is dsp.ImpulseResponse and ctx.flag("window", 0.5):
        s.set_window(np.ones((n, c)) * 0.5)
    other = sig(ctx, 1, 44100, n, busy=False)
    x = ctx.rng.normal(size=(n, 1))
    k = ctx.int("too_far", 0, 3)
    perm = np.arange(c)
    calls = dict(
        rate_float=setter(s, "sampling_rate_hz", 48000.0), rate_str=setter(s, "sampling_rate_hz", "48000"), rate_none=setter(s, "sampling_rate_hz", None),
        data_3d=setter(s, "time_data", ctx.rng.normal(size=(5, 3, 2))),
        imaginary_length=setter(s, "time_data_imaginary", ctx.rng.normal(size=(n - 1, c)) * 3), imaginary_channels=setter(s, "time_data_imaginary", ctx.rng.normal(size=(n, c + 1))),
        constrain_int=setter(s, "constrain_amplitude", 1), constrain_none=setter(s, "constrain_amplitude", None), calibrated=setter(s, "calibrated_signal", 1),
        scaling=setter(s, "spectrum_scaling", "power"), method=setter(s, "spectrum_method", "welch"), smoothing=setter(s, "spectrum_smoothing", -1),
        add_rate=lambda: s.add_channel(None, x, 44100), add_longer=lambda: s.add_channel(None, np.concatenate([x, x]), 48000, allow_padding_trimming=False), add_shorter=lambda: s.add_channel(None, x[:-5], 48000, allow_padding_trimming=False),
        add_3d=lambda: s.add_channel(None, np.ones((5, 2, 2)), 48000), add_path_and_data=lambda: s.add_channel("nowhere.wav", x, 48000), add_nowhere=lambda: s.add_channel("/nonexistent/nowhere.wav"), add_nothing=lambda: s.add_channel(),
        remove_high=lambda: s.remove_channel(c + k), remove_low=lambda: s.remove_channel(-c - 2 - k),
        swap_few=lambda: s.swap_channels(perm[:-1]), swap_many=lambda: s.swap_channels(np.arange(c + 1)), swap_negative=lambda: s.swap_channels(perm - 1), swap_high=lambda: s.swap_channels(perm + 1),
        get_high=lambda: s.get_channels(c + k), get_low=lambda: s.get_channels(-c - 1 - k), get_some_high=lambda: s.get_channels([0, c + k]),
        new_nothing=lambda: cls(None, None, 48000), new_no_rate=lambda: cls(None, x, None), new_float_rate=lambda: cls(None, x, 48000.0), new_both=lambda: cls("a.wav", x, 48000), new_path_and_rate=lambda: cls("a.wav", None, 48000), new_3d=lambda: cls(None, np.ones((4, 3, 2)), 48000),
        new_nowhere=lambda: cls("/nonexistent/nowhere.wav"),
    )
    if c > 1:
        calls |= dict(swap_repeated=lambda: s.swap_channels([0] * c), swap_2d=lambda: s.swap_channels(np.stack([perm, perm])))
    else:
        calls |= dict(remove_only=lambda: s.remove_channel(0), csm_one=lambda: s.get_csm())
    if cls is dsp.ImpulseResponse:
        calls |= dict(window_length=lambda: s.set_window(np.ones((n + 1, c))), window_channels=lambda: s.set_window(np.ones((n, c + 1))), window_1d=lambda: s.set_window(np.ones(n)))
    refuse(ctx, calls, [s, other, x], lambda s, o, x: signal_probe(s, o))


def saving(ctx):
    s = sig(ctx)
    f, H, D = definition(ctx, 48000, 0)
    bank = dsp.FilterBank([dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000, 3.0, 1.0, 48000)])
    sp = dsp.Spectrum.from_signal(sig(ctx, busy=False).set_spectrum_parameters(dsp.SpectrumMethod.FFT))
    mb = dsp.MultiBandSignal([s.copy(), s.copy()])
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x")
        calls = dict(
            wav_ext=lambda: s.save_signal(p + ".mp3", "wav"), mode=lambda: s.save_signal(p, "mp3"), depth=lambda: s.save_signal(p, "wav", 12), flac_ext=lambda: s.save_signal(p + ".wav", "flac"), pkl_ext=lambda: s.save_signal(p + ".wav", "pkl"),
            multiband_ext=lambda: mb.save_signal(p + ".wav"), filter_ext=lambda: f.save_filter(p + ".txt"), bank_ext=lambda: bank.save_filterbank(p + ".txt"), spectrum_ext=lambda: sp.save_spectrum(p + ".txt"),
            load_ext=lambda: dsp.load_pkl_object(p + ".wav"), load_missing=lambda: dsp.load_pkl_object(p + "missing.pkl"), folder=lambda: s.save_signal(os.path.join(d, "missing", "x"), "wav"),
        )
        refuse(ctx, calls, [s, f, bank, sp, mb])
        ctx.ok("no_files", not os.listdir(d), f"{os.listdir(d)} left behind")


def multiband(ctx):
    multirate = ctx.flag("multirate", 0.35)
    c, n, nb = ctx.pick("c", [1, 2, 3]), 128, ctx.int("bands", 1, 4)
    rates = [48000] * nb if not multirate else [48000 // 2**i for i in range(nb)]
    bands = [dsp.Signal(None, ctx.rng.normal(size=(n if not multirate else n // 2**i, c)), r, constrain_amplitude=False) for i, r in enumerate(rates)]
    m = dsp.MultiBandSignal(bands, not multirate, {"k": 2})
    new = lambda n=n, c=c, fs=48000, z=False: dsp.Signal(None, ctx.rng.normal(size=(n, c)) + (1j * ctx.rng.normal(size=(n, c)) if z else 0), fs, constrain_amplitude=False)
    chans, cplx = new(c=c + 1), new(z=True)
    calls = dict(
        add_channels=lambda: m.add_band(chans), add_channels_first=lambda: m.add_band(chans, 0), add_complex=lambda: m.add_band(cplx), add_array=lambda: m.add_band(np.ones((n, c))), add_none=lambda: m.add_band(None), add_multiband=lambda: m.add_band(m),
        bands_mixed=setter(m, "bands", bands + [chans]), bands_complex=setter(m, "bands", [cplx] + bands), bands_array=setter(m, "bands", np.ones(3)), bands_str=setter(m, "bands", "abc"), bands_none=setter(m, "bands", [bands[0], None]),
        remove_high=lambda: m.remove_band(nb + ctx.int("k", 0, 2)), remove_low=lambda: m.remove_band(-nb - 1),
        swap_few=lambda: m.swap_bands(np.arange(nb - 1)), swap_many=lambda: m.swap_bands(np.arange(nb + 1)), swap_negative=lambda: m.swap_bands(np.arange(nb) - 1), swap_high=lambda: m.swap_bands(np.arange(nb) + 1),
        flag_int=setter(m, "same_sampling_rate", 1), flag_none=setter(m, "same_sampling_rate", None), all_bands_high=lambda: m.get_all_bands(c),
        new_channels=lambda: dsp.MultiBandSignal([bands[0], chans]), new_complex=lambda: dsp.MultiBandSignal([bands[0], cplx]),
    )
    if nb > 1:
        calls |= dict(swap_repeated=lambda: m.swap_bands([0] * nb))
    if not multirate:
        rate, length = new(fs=44100), new(n=n + 1)
        calls |= dict(
            add_rate=lambda: m.add_band(rate), add_length=lambda: m.add_band(length, 0), bands_rate=setter(m, "bands", bands + [rate]), bands_length=setter(m, "bands", [length] + bands), rates=setter(m, "sampling_rate_hz", [48000, 44100]),
            new_rate=lambda: dsp.MultiBandSignal([bands[0], rate]), new_length=lambda: dsp.MultiBandSignal([bands[0], length]),
        )
    else:
        calls |= dict(rates_few=setter(m, "sampling_rate_hz", [48000] * (nb + 1)), rates_many=setter(m, "sampling_rate_hz", [48000] * (nb + 3)))
        if nb > 1:
            calls |= dict(collapse=lambda: m.collapse(), pad=lambda: dsp.pad_trim(m, 50), envelope=lambda: dsp.envelope(m, False, 10), now_same=setter(m, "same_sampling_rate", True))
    if ctx.flag("emptied", 0.1):
        while m.number_of_bands:
            m.remove_band()
        calls = dict(remove_empty=lambda: m.remove_band(), remove_empty_0=lambda: m.remove_band(0))
    refuse(ctx, calls, [m, bands, chans, cplx], lambda m, b, a, z: signal_probe(m))


# ---------------------------------------------------------------- filters
def stream(f, x):
    return [f.filter_signal(x, activate_zi=True).time_data]


def filters(ctx):
    f, H, D = definition(ctx, 48000, 0)
    c = ctx.pick("c", [1, 2, 3])
    x = dsp.Signal(None, ctx.rng.normal(size=(100, c)), 48000, constrain_amplitude=False)
    y = dsp.Signal(None, ctx.rng.normal(size=(100, c)), 44100, constrain_amplitude=False)
    streaming = ctx.flag("streaming")
    if streaming:
        with quiet():
            f.initialize_zi(c)
            f.filter_signal(x, activate_zi=True)
    if ctx.flag("read"):
        for t in (Ba, Zpk, Sos):
            with quiet():
                f.get_coefficients(t)
    calls = dict(
        zi_zero=lambda: f.initialize_zi(0), zi_negative=lambda: f.initialize_zi(-1), rate_float=setter(f, "sampling_rate_hz", 48000.0), rate_none=setter(f, "sampling_rate_hz", None), warning=setter(f, "warning_if_complex", 1),
        filter_rate=lambda: f.filter_signal(y), filter_rate_zi=lambda: f.filter_signal(y, activate_zi=True), filter_both=lambda: f.filter_signal(x, activate_zi=True, zero_phase=True), filter_channel=lambda: f.filter_signal(x, c), filter_channels=lambda: f.filter_signal(x, [0, c + 1]), filter_channel_zi=lambda: f.filter_signal(x, [c], activate_zi=True), filter_2d=lambda: f.filter_signal(x, np.zeros((2, 2), dtype=int)),
        filter_array=lambda: f.filter_signal(x.time_data),
        response_high=lambda: f.get_transfer_function(np.array([100.0, 24001.0])), response_2d=lambda: f.get_transfer_function(np.ones((3, 2))), coefficients=lambda: f.get_coefficients("ba"),
        both=lambda: dsp.Filter({Ba: [[1.0], [1.0]], Sos: np.array([[1.0, 0, 0, 1, 0, 0]])}, 48000), none=lambda: dsp.Filter({}, 48000), ba_one=lambda: dsp.Filter({Ba: [[1.0]]}, 48000), ba_2d=lambda: dsp.Filter.from_ba(np.ones((2, 2)), [1.0], 48000), sos_5=lambda: dsp.Filter.from_sos(np.ones((2, 5)), 48000), sos_1d=lambda: dsp.Filter.from_sos(np.ones(6), 48000),
        zpk_two=lambda: dsp.Filter({Zpk: [[0.5], [0.1]]}, 48000), new_rate_none=lambda: dsp.Filter.from_ba([1.0], [1.0], None), new_rate_float=lambda: dsp.Filter.from_ba([1.0], [1.0], 48000.0),
        set_ba_one=setter(f, "ba", [[1.0]]), set_ba_2d=setter(f, "ba", [np.ones((2, 2)), [1.0]]), set_ba_a_2d=setter(f, "ba", [[0.3, 0.7], np.ones((2, 2))]), set_sos_list=setter(f, "sos", [[1.0, 0, 0, 1, 0, 0]]), set_sos_5=setter(f, "sos", np.ones((1, 5))), set_sos_1d=setter(f, "sos", np.ones(6)), set_zpk_two=setter(f, "zpk", [[0.1], [0.2]]),
        resample_both=lambda: f.filter_and_resample_signal(x, 44100), resample_rate=lambda: f.filter_and_resample_signal(y, 22050), resample_up=lambda: f.filter_and_resample_signal(x, 96000),
        iir_high=lambda: dsp.Filter.iir_filter(4, 24500.0, dsp.FilterPassType.Lowpass, 48000), iir_zero=lambda: dsp.Filter.iir_filter(4, 0.0, dsp.FilterPassType.Lowpass, 48000), iir_band=lambda: dsp.Filter.iir_filter(4, 1000.0, dsp.FilterPassType.Bandpass, 48000), fir_high=lambda: dsp.Filter.fir_filter(20, 24500.0, dsp.FilterPassType.Lowpass, 48000),
        combine_rate=lambda: dsp.merge_filters([f, dsp.Filter.from_ba([1.0, 0.5], [1.0], 44100)]), combine_one=lambda: dsp.merge_filters([f]),
    )
    if f.is_iir:
        calls |= dict(taps=lambda: f.plot_taps(), combine_mixed=lambda: dsp.merge_filters([f, dsp.Filter.from_ba([1.0, 0.5], [1.0], 48000)]), to_ir=lambda: tf.filter_to_ir(f), complementary=lambda: fb.complementary_fir_filter(f),
                      overlap_save=lambda: fb.FIRFilterOverlapSave.from_filter(f), partitioned=lambda: fb.FIRUniformPartitioned.from_filter(f), fir_real_time=lambda: fb.FIRFilter.from_filter(f), warped=lambda: fb.WarpedFIR.from_filter(f, 0.3))
    else:
        calls |= dict(combine_mixed=lambda: dsp.merge_filters([f, dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000, 3.0, 1.0, 48000)]))
    refuse(ctx, calls, [f, x, y], (lambda f, x, y: stream(f, x)) if streaming else (lambda f, x, y: [f.filter_signal(x).time_data, f.get_transfer_function(np.linspace(10, 20000, 20)), *f.get_coefficients(Ba)]))


def banks(ctx):
    multirate = ctx.flag("multirate", 0.25)
    n, c = ctx.int("filters", 1, 4), ctx.pick("c", [1, 2])
    make = lambda fs: dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000.0, float(ctx.rng.normal()), 1.0, fs)
    rates = [48000] * n if not multirate else [48000, 24000, 44100, 16000][:n]
    bank = dsp.FilterBank([make(r) for r in rates], not multirate, {"k": 1})
    fil, wrong = make(48000), make(44100)
    x = dsp.Signal(None, ctx.rng.normal(size=(64, c)), 48000, constrain_amplitude=False)
    y = dsp.Signal(None, ctx.rng.normal(size=(64, c)), 44100, constrain_amplitude=False)
    mb = dsp.MultiBandSignal([dsp.Signal(None, ctx.rng.normal(size=(64, c)), r, constrain_amplitude=False) for r in rates], not multirate)
    few = dsp.MultiBandSignal(mb.bands[:-1] or [x, x], not multirate)
    many = dsp.MultiBandSignal(mb.bands + [x], not multirate)
    streaming = ctx.flag("streaming") and not multirate
    if streaming:
        bank.initialize_zi(c)
        bank.filter_signal(x, Par, activate_zi=True)
    f = np.linspace(10, 5000, 10)
    calls = dict(
        add_none=lambda: bank.add_filter(None), add_list=lambda: bank.add_filter([fil]), add_signal=lambda: bank.add_filter(x), remove_high=lambda: bank.remove_filter(n), remove_low=lambda: bank.remove_filter(-n - 1),
        swap_few=lambda: bank.swap_filters(np.arange(n - 1)), swap_many=lambda: bank.swap_filters(np.arange(n + 1)), swap_negative=lambda: bank.swap_filters(np.arange(n) - 1), swap_high=lambda: bank.swap_filters(np.arange(n) + 1),
        set_tuple=setter(bank, "filters", "ab"), set_mixed=setter(bank, "filters", [fil, x]), flag=setter(bank, "same_sampling_rate", 0), zi=lambda: bank.initialize_zi(0),
        filter_multiband=lambda: bank.filter_signal(mb, Par), filter_array=lambda: bank.filter_signal(x.time_data, Par), mode=lambda: bank.filter_signal(x, "parallel"), multi_few=lambda: bank.filter_multiband_signal(few), multi_many=lambda: bank.filter_multiband_signal(many), multi_both=lambda: bank.filter_multiband_signal(mb, activate_zi=True, zero_phase=True),
        gains=lambda: dsp.apply_gain(bank, np.ones(n + 1)), append_one=lambda: dsp.append_filterbanks([bank]), new_signal=lambda: dsp.FilterBank([x]), new_rates=lambda: dsp.FilterBank([fil, wrong]),
    )
    if n > 1:
        calls |= dict(swap_repeated=lambda: bank.swap_filters([0] * n))
    if multirate:
        calls |= dict(rates_few=setter(bank, "sampling_rate_hz", [48000] * (n + 1)), append_rate=lambda: dsp.append_filterbanks([bank, dsp.FilterBank([wrong])]))
        if n > 1:
            calls |= dict(sequential=lambda: bank.filter_signal(x, Seq), summed=lambda: bank.filter_signal(x, Sum), ir=lambda: bank.get_ir(100, Seq), now_same=setter(bank, "same_sampling_rate", True), parallel_other=lambda: bank.filter_signal(x, Par), ir_summed=lambda: bank.get_ir(100, Sum))
    else:
        ymb = dsp.MultiBandSignal([y] * n)
        calls |= dict(
            add_rate=lambda: bank.add_filter(wrong), add_rate_first=lambda: bank.add_filter(wrong, 0), set_rates=setter(bank, "filters", [fil, wrong]), rates=setter(bank, "sampling_rate_hz", [48000, 44100]), filter_rate=lambda: bank.filter_signal(y, Par), filter_rate_zi=lambda: bank.filter_signal(y, Seq, activate_zi=True), filter_both=lambda: bank.filter_signal(x, Seq, activate_zi=True, zero_phase=True), multi_rate=lambda: bank.filter_multiband_signal(ymb),
            response_high=lambda: bank.get_transfer_function(np.array([1.0, 24001.0]), Par), response_2d=lambda: bank.get_transfer_function(np.ones((3, 2)), Seq), append_rate=lambda: dsp.append_filterbanks([bank, dsp.FilterBank([wrong])]), response_mode=lambda: bank.get_transfer_function(f, "x"),
        )
    if ctx.flag("emptied", 0.1):
        while bank.number_of_filters:
            bank.remove_filter()
        calls = dict(remove_empty=lambda: bank.remove_filter(), remove_empty_0=lambda: bank.remove_filter(0))
        streaming, multirate = False, True
    probe = (lambda b, *r: [q.time_data for q in b.filter_signal(x, Par, activate_zi=True).bands]) if streaming else (lambda b, *r: [q.time_data for q in b.filter_multiband_signal(mb).bands]) if bank.number_of_filters else None
    refuse(ctx, calls, [bank, x, y, mb, fil, wrong, few, many], probe)


def crossovers(ctx):
    kind = ctx.pick("kind", ["lr", "qmf", "gammatone", "fractional"])
    c = ctx.pick("c", [1, 2])
    n = 512
    x = dsp.Signal(None, ctx.rng.normal(size=(n, c)), 48000, constrain_amplitude=False)
    y = dsp.Signal(None, ctx.rng.normal(size=(n, c)), 44100, constrain_amplitude=False)
    probe = lambda b, *r: [q.time_data for q in b.filter_signal(x, Par).bands]
    if kind == "lr":
        b = fb.linkwitz_riley_crossovers([500.0, 3000.0], [4, 4], 48000)
        zi = ctx.flag("streaming")
        if zi:
            b.filter_signal(x, Par, activate_zi=True)
            probe = lambda b, *r: [q.time_data for q in b.filter_signal(x, Par, activate_zi=True).bands]
        calls = dict(rate=lambda: b.filter_signal(y, Par), rate_zi=lambda: b.filter_signal(y, Par, activate_zi=True), both=lambda: b.filter_signal(x, Par, activate_zi=True, zero_phase=True), high=lambda: fb.linkwitz_riley_crossovers([500.0, 24001.0], [4, 4], 48000), orders=lambda: fb.linkwitz_riley_crossovers([500.0, 2000.0], [4, 4, 2], 48000), phase_seq=lambda: b.plot_phase(256, Seq), gd_seq=lambda: b.plot_group_delay(256, Seq))
    elif kind == "qmf":
        b = fb.qmf_crossover(dsp.Filter.fir_filter(31, 12000.0, dsp.FilterPassType.Lowpass, 48000))
        bands = b.filter_signal(x, Par)
        three = dsp.MultiBandSignal(bands.bands + [bands.bands[0].copy()], bands.same_sampling_rate)
        calls = dict(rate=lambda: b.filter_signal(y, Par, downsample=True), three=lambda: b.reconstruct_signal(three), zero_down=lambda: b.filter_signal(x, Par, zero_phase=True, downsample=True), state_down=lambda: b.filter_signal(x, Par, activate_zi=True, downsample=True), synth_three=setter(b, "filters_synthesis", b.filters_synthesis * 2), synth_type=setter(b, "filters_synthesis", [x, x]), rate_plain=lambda: b.filter_signal(y, Par))
    elif kind == "gammatone":
        b = fb.auditory_filters_gammatone([100, 8000], 1, 48000)
        real = dsp.MultiBandSignal([x.copy() for _ in range(b.number_of_filters)])
        calls = dict(rate=lambda: b.filter_signal(y, Par), real=lambda: b.reconstruct(real), high=lambda: fb.auditory_filters_gammatone([100, 24001], 1, 48000), no_rate=lambda: fb.auditory_filters_gammatone([100, 8000], 1), resolution=lambda: fb.auditory_filters_gammatone([100, 8000], 0, 48000))
    else:
        b = fb.fractional_octave_bands([125, 4000], 1, 4, 48000)[0]
        calls = dict(high=lambda: fb.fractional_octave_bands([31.5, 24500], sampling_rate_hz=48000), one=lambda: fb.fractional_octave_bands([31.5], sampling_rate_hz=48000), no_rate=lambda: fb.fractional_octave_bands([31.5, 8000]), rate=lambda: b.filter_signal(y, Par),
                     length=lambda: fb.reconstructing_fractional_octave_bands(n_samples=1000, sampling_rate_hz=48000), overlap=lambda: fb.reconstructing_fractional_octave_bands(overlap=1.5, sampling_rate_hz=48000), overlap_low=lambda: fb.reconstructing_fractional_octave_bands(overlap=-0.1, sampling_rate_hz=48000), slope=lambda: fb.reconstructing_fractional_octave_bands(slope=-1, sampling_rate_hz=48000), slope_float=lambda: fb.reconstructing_fractional_octave_bands(slope=1.5, sampling_rate_hz=48000), rec_rate=lambda: fb.reconstructing_fractional_octave_bands(),
                     pinking=lambda: fb.pinking_filter(24500, 48000), matched_high=lambda: fb.matched_biquad(dsp.BiquadEqType.Peaking, 24500, 3.0, 1.0, 48000), matched_zero=lambda: fb.matched_biquad(dsp.BiquadEqType.Peaking, 0, 3.0, 1.0, 48000), matched_q=lambda: fb.matched_biquad(dsp.BiquadEqType.Peaking, 1000, 3.0, 0.0, 48000), matched_type=lambda: fb.matched_biquad(dsp.BiquadEqType.Allpass, 1000, 3.0, 1.0, 48000),
                     gaussian_odd=lambda: fb.gaussian_kernel(0.02, 1e-2, 11, 48000), gaussian_rate=lambda: fb.gaussian_kernel(0.02), fractional_order=lambda: fb.fractional_delay(0.5, 0, 48000), fractional_low=lambda: fb.fractional_delay(0.0, 4, 48000), fractional_high=lambda: fb.fractional_delay(1.2, 4, 48000))
    refuse(ctx, calls, [b, x, y], probe)


# ---------------------------------------------------------------- spectra
def spectra(ctx):
    n, c = ctx.int("n", 8, 60), ctx.pick("c", [1, 2, 3])
    lin = ctx.flag("linear")
    f = np.linspace(0, 20000, n) if lin else np.geomspace(20, 20000, n)
    cplx = ctx.flag("complex")
    d = ctx.rng.normal(size=(n, c)) + 1j * ctx.rng.normal(size=(n, c))
    s = dsp.Spectrum(f.copy(), d if cplx else np.abs(d))
    if ctx.flag("coherence"):
        s.set_coherence(ctx.rng.uniform(size=(n, c)))
    o = dsp.Spectrum(f.copy(), np.abs(ctx.rng.normal(size=(n, c + 1))))
    E, I, Sch = dsp.InterpolationEdgeHandling, dsp.InterpolationDomain, dsp.InterpolationScheme
    err = s.copy()
    err.set_interpolator_parameters(edges_handling=E.Error)
    g = f.copy()
    g[2] = g[1]
    h = f[::-1].copy()
    calls = dict(
        f_complex=setter(s, "frequency_vector_hz", f + 1j), f_2d=setter(s, "frequency_vector_hz", np.stack([f, f])), f_negative=setter(s, "frequency_vector_hz", f - 100), f_repeated=setter(s, "frequency_vector_hz", g), f_descending=setter(s, "frequency_vector_hz", h), f_length=setter(s, "frequency_vector_hz", np.linspace(0, 1000, n + 2)),
        new_complex=lambda: dsp.Spectrum(f + 1j, d), new_negative=lambda: dsp.Spectrum(f - 30, d), new_repeated=lambda: dsp.Spectrum(g, d), new_length=lambda: dsp.Spectrum(f, d[:-1]), new_3d=lambda: dsp.Spectrum(f, np.ones((n, 2, 2))), new_magnitude=lambda: dsp.Spectrum(f, -np.abs(d) - 1e-9),
        data_length=setter(s, "spectral_data", np.ones((n + 1, n + 2))), data_3d=setter(s, "spectral_data", np.ones((n, 2, 2))), data_negative=setter(s, "spectral_data", -np.ones((n, c))),
        coherence_length=lambda: s.set_coherence(np.ones((n - 1, c))), coherence_channels=lambda: s.set_coherence(np.ones((n, c + 1))), coherence_complex=lambda: s.set_coherence(np.ones((n, c)) + 1j),
        trim_reversed=lambda: s.trim(10000, 500), gains=lambda: s.apply_gain(np.ones(c + 1)), edges=lambda: err.get_interpolated_spectrum(np.array([1000.0, 30000.0]), dsp.SpectrumType.Power), edges_resample=lambda: err.resample(np.array([1000.0, 30000.0])),
        warp_rate=lambda: s.warp(0.3, 20000), warp_factor=lambda: s.warp(1.5, 48000), energy_reversed=lambda: s.get_energy(f[-1], f[0]),
        remove_high=lambda: s.remove_channel(c), swap_many=lambda: s.swap_channels(np.arange(c + 1)), swap_negative=lambda: s.swap_channels(np.arange(c) - 1), get_high=lambda: s.get_channels(c), append_one=lambda: dsp.append_spectra([s]), difference=lambda: dsp.spectral_difference(s, o),
        f_from_filter=lambda: dsp.Spectrum.from_filter(np.array([100.0, 30000.0]), dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000, 3.0, 1.0, 48000)),
    )
    if not cplx:
        calls |= dict(to_signal=lambda: s.to_signal(48000, 0.01), complex_output=lambda: s.get_interpolated_spectrum(f[1:4], dsp.SpectrumType.Complex), complex_domain=lambda: s.set_interpolator_parameters(domain=I.Complex), difference_complex=lambda: dsp.spectral_difference(s, s.copy(), complex=True))
    if not lin:
        calls |= dict(to_signal_length=lambda: s.to_signal(48000))
    if c == 1:
        calls |= dict(remove_only=lambda: s.remove_channel(0))
    refuse(ctx, calls, [s, o, err, f, d, g, h], lambda s, *r: [s.frequency_vector_hz, s.spectral_data, s.copy().resample(f[2:-2]).spectral_data, s.get_energy()])


# --------------------------------------------------------------- standard
def standard(ctx):
    s = sig(ctx)
    n, c = len(s), s.number_of_channels
    t = s.length_seconds
    o = dsp.Signal(None, ctx.rng.normal(size=(n, c)), 44100)
    longer = dsp.Signal(None, ctx.rng.normal(size=(n + 7, c)), 48000)
    more = dsp.Signal(None, ctx.rng.normal(size=(n, c + 1)), 48000)
    m = dsp.MultiBandSignal([s.copy(), s.copy()])
    m3 = dsp.MultiBandSignal([s.copy()] * 3)
    mo = dsp.MultiBandSignal([o.copy()] * 2)
    f = dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000, 3.0, 1.0, 48000)
    A = dsp.append_signals
    calls = dict(
        append_one=lambda: A([s]), append_rate=lambda: A([s, o]), append_rate_last=lambda: A([s, s.copy(), o]), append_type=lambda: A([s, m]), append_type_2=lambda: A([m, s]), append_length=lambda: A([s, longer], False), append_array=lambda: A([s, s.time_data]), append_multi_rate=lambda: A([m, mo]), append_multi_bands=lambda: A([m, m3]), append_list=lambda: A([1, 2]),
        pad_type=lambda: dsp.pad_trim(s.time_data, 10), modify_none=lambda: dsp.modify_signal_length(s, None, None), modify_start=lambda: dsp.modify_signal_length(s, -t * 1.2, None), modify_end=lambda: dsp.modify_signal_length(s, None, -t * 1.2), modify_type=lambda: dsp.modify_signal_length(f, 0.1, None),
        level_none=lambda: dsp.trim_with_level_threshold(s, -20, False, False), time_none=lambda: dsp.trim_with_time_selection(s, None, None), time_negative=lambda: dsp.trim_with_time_selection(s, -0.1 * t, t), time_start=lambda: dsp.trim_with_time_selection(s, t * 1.1, None), time_end=lambda: dsp.trim_with_time_selection(s, None, t * 1.2), time_end_0=lambda: dsp.trim_with_time_selection(s, None, 0.0), time_reversed=lambda: dsp.trim_with_time_selection(s, 0.8 * t, 0.3 * t), time_type=lambda: dsp.trim_with_time_selection(s.time_data, 0, 1),
        latency_negative=lambda: dsp.latency(s, s.copy(), -1), latency_rate=lambda: dsp.latency(s, o), latency_channels=lambda: dsp.latency(s, more), latency_type=lambda: dsp.latency(s, m), latency_multi_type=lambda: dsp.latency(m, s), latency_multi_rate=lambda: dsp.latency(m, mo), latency_array=lambda: dsp.latency(s.time_data, s.time_data),
        fractional_negative=lambda: dsp.fractional_delay(s, -1e-3), fractional_long=lambda: dsp.fractional_delay(s, t * 1.1, None, True), fractional_channel=lambda: dsp.fractional_delay(s, t * 0.1, [c]), fractional_repeated=lambda: dsp.fractional_delay(s, t * 0.1, [0, 0]), fractional_type=lambda: dsp.fractional_delay(f, 1e-3),
        delay_long=lambda: dsp.delay(s, n + 1, None, True), delay_channel=lambda: dsp.delay(s, 3, [c]), delay_repeated=lambda: dsp.delay(s, 3, [0, 0]), delay_type=lambda: dsp.delay(s.time_data, 3), delay_negative=lambda: dsp.delay(s, -4),
        normalize_type=lambda: dsp.normalize(f, -3), fade_none=lambda: dsp.fade(s, FadeType.Linear, None, False, False), fade_long=lambda: dsp.fade(s, FadeType.Linear, t * 1.2), fade_type=lambda: dsp.fade(s, "lin"), fade_zero=lambda: dsp.fade(s, FadeType.Linear, 0.0), true_peak_type=lambda: dsp.true_peak_level(f), rms_type=lambda: dsp.rms(f), crest_type=lambda: dsp.crest_factor(f), gain_type=lambda: dsp.apply_gain([s], 3.0), gain_count=lambda: dsp.apply_gain(s, np.ones(c + 1)),
        lufs_channels=lambda: dsp.lufs_integrated(dsp.Signal(None, np.ones((1000, 6)), 48000)), detrend_negative=lambda: dsp.detrend(s, -1), detrend_type=lambda: dsp.detrend(f), envelope_none=lambda: dsp.envelope(s, False), envelope_zero=lambda: dsp.envelope(s, False, 0), envelope_type=lambda: dsp.envelope(f),
        activity_threshold=lambda: dsp.activity_detector(s, 3.0), activity_channel=lambda: dsp.activity_detector(s, -20, 0.5), activity_attack=lambda: dsp.activity_detector(s, -20, 0, True, None, -1.0), activity_release=lambda: dsp.activity_detector(s, -20, 0, True, None, 1.0, -1.0), activity_filter=lambda: dsp.activity_detector(s, -20, 0, True, s), activity_channel_high=lambda: dsp.activity_detector(s, -20, c),
        difference=lambda: dsp.spectral_difference(s, more),
    )
    if c == 1:
        calls |= dict(latency_one=lambda: dsp.latency(s))
    refuse(ctx, calls, [s, o, longer, more, m, m3, mo, f], lambda s, o, l, r, m, *k: signal_probe(s, o, m))


def transfer(ctx):
    c = ctx.pick("c", [1, 2])
    n = 512
    mk = lambda cls=dsp.ImpulseResponse, n=n, c=c, fs=48000: cls(None, 0.3 * ctx.rng.normal(size=(n, c)) * np.exp(-np.arange(n) / 60)[:, None], fs)
    h, g, l, r, m = mk(), mk(fs=44100), mk(n=n + 20), mk(c=c + 2), mk(c=max(c, 2) + 1)
    s = mk(dsp.Signal)
    if ctx.flag("settings"):
        h.set_spectrum_parameters(ctx.pick("m", list(dsp.SpectrumMethod)), window_length_samples=64)
    dec = lambda a, b, **k: tf.spectral_deconvolve(a, b, **k)
    calls = dict(
        deconvolve_length=lambda: dec(h, l), deconvolve_rate=lambda: dec(h, g), deconvolve_channels=lambda: dec(h, r), deconvolve_range=lambda: dec(h, h.copy(), apply_regularization=False, start_stop_hz=[20, 2000]), deconvolve_three=lambda: dec(h, h.copy(), start_stop_hz=[20, 200, 2000]),
        window_signal=lambda: tf.window_ir(s, 200), window_constant=lambda: tf.window_ir(h, 200, constant_percentage=1.0), window_constant_low=lambda: tf.window_ir(h, 200, constant_percentage=-0.1), window_offset=lambda: tf.window_ir(h, 200, offset_samples=-1), window_offset_long=lambda: tf.window_ir(h, 200, constant_percentage=0.1, offset_samples=100), window_ratio=lambda: tf.window_ir(h, 200, left_to_right_flank_length_ratio=-1.0),
        tukey_signal=lambda: tf.window_ir_tukey(s, 1e-3, 1e-3), tukey_none=lambda: tf.window_ir_tukey(h, None, None), tukey_type=lambda: tf.window_ir_tukey(h, 1e-3, 1e-3, window_flank_type=dsp.Window.Tukey), tukey_long=lambda: tf.window_ir_tukey(h, 6e-3, 6e-3), centered_signal=lambda: tf.window_centered_ir(s, 200),
        tf_rate=lambda: tf.compute_transfer_function(h, g, 128), tf_length=lambda: tf.compute_transfer_function(h, l, 128), tf_channels=lambda: tf.compute_transfer_function(h, m, 128), tf_parameters=lambda: tf.compute_transfer_function(h, h.copy(), 128, spectrum_parameters=[1]),
        average_signal=lambda: tf.average_irs(mk(dsp.Signal, c=2)), average_one=lambda: tf.average_irs(mk(c=1)), min_signal=lambda: tf.min_phase_ir(s), min_padding=lambda: tf.min_phase_ir(h, True, 1), min_alpha=lambda: tf.min_phase_ir(h, alpha=0.0), min_alpha_high=lambda: tf.min_phase_ir(h, alpha=1.5), phase_signal=lambda: tf.minimum_phase(s), min_gd_signal=lambda: tf.minimum_group_delay(s), excess_signal=lambda: tf.excess_group_delay(s),
        dirac_signal=lambda: tf.combine_ir_with_dirac(s, 1000, True, 2, "energy"), dirac_norm=lambda: tf.combine_ir_with_dirac(h, 1000, True, 2, "rms"), filter_signal=lambda: tf.ir_to_filter(s), filter_mode=lambda: tf.ir_to_filter(h, 0, "max"), filter_channel=lambda: tf.ir_to_filter(h, c), to_ir_type=lambda: tf.filter_to_ir(h),
        fdw_signal=lambda: tf.window_frequency_dependent(s, 5), fdw_end=lambda: tf.window_frequency_dependent(h, 5, 0.0), latency_signal=lambda: tf.find_ir_latency(s), smoothing_zero=lambda: tf.complex_smoothing(h, 0.0, tf.SmoothingDomain.Power), smoothing_domain=lambda: tf.complex_smoothing(h, 3.0, "power"), trim_offset=lambda: tf.trim_ir(h, start_offset_s=-1e-3),
        harmonics_signal=lambda: tf.harmonics_from_chirp_ir(mk(dsp.Signal, c=1), [20, 20e3], 1.0, 2), harmonics_channels=lambda: tf.harmonics_from_chirp_ir(mk(c=2), [20, 20e3], 1.0, 2), harmonics_offset=lambda: tf.harmonics_from_chirp_ir(mk(c=1), [20, 20e3], 1.0, 2, 1.0), distortion_none=lambda: tf.harmonic_distortion_analysis(mk(c=1)), distortion_type=lambda: tf.harmonic_distortion_analysis(f), distortion_channels=lambda: tf.harmonic_distortion_analysis([mk(c=2)]),
        lin_gd=lambda: tf.lin_phase_from_mag(sp, 48000, 0.01), lin_factor=lambda: tf.lin_phase_from_mag(sp, 48000, None, True, 0.5), arma_channels=lambda: fb.arma(mk(c=2), 3), arma_order=lambda: fb.arma(mk(c=1), 0), arma_b=lambda: fb.arma(mk(c=1), 2, -1), arma_long=lambda: fb.arma(mk(c=1), n + 1), arma_method=lambda: fb.arma(mk(c=1), 2, 1, "fancy"),
    )
    f = dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000, 3.0, 1.0, 48000)
    sp = dsp.Spectrum.from_signal(h.copy().set_spectrum_parameters(dsp.SpectrumMethod.FFT))
    refuse(ctx, calls, [h, g, l, r, m, s, f, sp], lambda h, *k: signal_probe(h))


def distance(ctx):
    c = ctx.pick("c", [1, 2])
    n = 8192
    mk = lambda n=n, c=c, fs=48000: dsp.Signal(None, ctx.rng.normal(size=(n, c)), fs)
    a, b, rate, length, chans = mk(), mk(), mk(fs=44100), mk(n=n - 100), mk(c=c + 2)
    calls = {}
    for name, fn in [("log", di.log_spectral), ("is", di.itakura_saito)]:
        calls |= {name + "_rate": lambda fn=fn: fn(a, rate), name + "_channels": lambda fn=fn: fn(a, chans), name + "_range_one": lambda fn=fn: fn(a, b, f_range_hz=[20]), name + "_range_high": lambda fn=fn: fn(a, b, f_range_hz=[20, 24001]), name + "_range_negative": lambda fn=fn: fn(a, b, f_range_hz=[-20, 2000])}
    calls |= dict(snr_rate=lambda: di.snr(a, rate), snr_channels=lambda: di.snr(a, mk(c=c + 1)), sdr_rate=lambda: di.si_sdr(a, rate), sdr_length=lambda: di.si_sdr(a, length), sdr_channels=lambda: di.si_sdr(chans, mk(c=c + 3)), fw_rate=lambda: di.fw_snr_seg(a, rate), fw_length=lambda: di.fw_snr_seg(a, length), fw_channels=lambda: di.fw_snr_seg(chans, mk(c=c + 1)), fw_high=lambda: di.fw_snr_seg(a, b, f_range_hz=[20, 24000]), fw_zero=lambda: di.fw_snr_seg(a, b, f_range_hz=[0, 2000]), fw_one=lambda: di.fw_snr_seg(a, b, f_range_hz=[20]), fw_snr=lambda: di.fw_snr_seg(a, b, snr_range_db=[1]), fw_gamma=lambda: di.fw_snr_seg(a, b, gamma=3.0), fw_gamma_low=lambda: di.fw_snr_seg(a, b, gamma=0.01))
    refuse(ctx, calls, [a, b, rate, length, chans], most=3)


def transform(ctx):
    s = sig(ctx, n=1024)
    c = s.number_of_channels
    st = s.copy().set_spectrogram_parameters(window_length_samples=64)
    t, f, S = st.get_spectrogram()
    fl = dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000, 3.0, 1.0, 48000)
    fv = np.array([500.0, 1000.0])
    calls = dict(
        mel_2d=lambda: tr.mel_filterbank(np.ones((4, 2))), mel_range=lambda: tr.mel_filterbank(f, [20, 200, 2000]), mel_high=lambda: tr.mel_filterbank(f, [20, 24500]), mel_negative=lambda: tr.mel_filterbank(f, [-5, 2000]), waterfall=lambda: tr.plot_waterfall(s, dynamic_range_db=-3), mfcc=lambda: tr.mfcc(st, 0, np.ones((10, len(f) + 1))),
        istft_2d=lambda: tr.istft(S[:, :, 0], st), istft_both=lambda: tr.istft(S, st, {"window_length_samples": 64}), istft_none=lambda: tr.istft(S), chroma_tuning=lambda: tr.chroma_stft(st, 0.0), chroma_compression=lambda: tr.chroma_stft(st, 440, 0.0),
        hilbert=lambda: tr.hilbert(fl), laguerre=lambda: tr.laguerre(s, 1.0), laguerre_low=lambda: tr.laguerre(s, -1.2), warp=lambda: tr.warp(s, 1.2, False), warp_str=lambda: tr.warp(s, "mel", False), warp_type=lambda: tr.warp(s, None, False), warp_filter=lambda: tr.warp_filter(fl, 1.0), morlet=lambda: tr.MorletWavelet(), wavelet_channel=lambda: tr.cwt(s, fv, tr.MorletWavelet(b=3.0), [c]),
        vf_none=lambda: tr.spectrum_via_filterbank(s, fv), vf_both=lambda: tr.spectrum_via_filterbank(s, fv, 1.0, 100.0), vf_octaves=lambda: tr.spectrum_via_filterbank(s, fv, -1.0), vf_hz=lambda: tr.spectrum_via_filterbank(s, fv, None, -100.0), mel_channel=lambda: tr.log_mel_spectrogram(st, c), mfcc_channel=lambda: tr.mfcc(st, c),
    )
    if c != 2:
        calls |= dict(mid_side=lambda: tr.stereo_mid_side(s))

    def window(p, **k):
        q = s.copy()
        q.set_spectrogram_parameters(**k) if p else q.set_spectrum_parameters(dsp.SpectrumMethod.WelchPeriodogram, **k)
        return q

    for name, k in dict(odd_length=dict(window_length_samples=100), overlap=dict(window_length_samples=64, overlap_percent=100), overlap_negative=dict(window_length_samples=64, overlap_percent=-5)).items():
        calls["stft_" + name] = lambda k=k: window(True, **k).get_spectrogram()
        calls["welch_" + name] = lambda k=k: window(False, **k).get_spectrum()
    calls["welch_average"] = lambda: window(False, window_length_samples=64, average="mode").get_spectrum()
    refuse(ctx, calls, [s, st, S, fl, fv], lambda s, st, *k: signal_probe(s, st))


def rooms(ctx):
    n = 4000
    c = ctx.pick("c", [1, 2])
    x = ctx.rng.normal(size=(n, c)) * np.exp(-np.arange(n) / 600)[:, None]
    h = dsp.ImpulseResponse(None, x, 8000)
    s = dsp.Signal(None, ctx.rng.normal(size=(n, c)), 8000)
    rir, two, rate = dsp.ImpulseResponse(None, x[:500, :1], 8000), dsp.ImpulseResponse(None, np.tile(x[:500, :1], (1, 2)), 8000), dsp.ImpulseResponse(None, x[:500, :1], 16000)
    mb = dsp.MultiBandSignal([h.copy(), h.copy()])
    room = ra.ShoeboxRoom([4.0, 5.0, 3.0], t60_s=0.6)
    D = ra.RoomAcousticsDescriptor
    rirgen = lambda *a, **k: ra.generate_synthetic_rir(*a, total_length_seconds=0.05, **k)
    calls = dict(
        reverb_type=lambda: ra.reverb_time(x), reverb_mode=lambda: ra.reverb_time(h, "T20"), reverb_start=lambda: ra.reverb_time(h, ir_start=np.zeros(c + 1, dtype=int)), reverb_start_float=lambda: ra.reverb_time(h, ir_start=0.5), reverb_start_multi=lambda: ra.reverb_time(mb, ir_start=np.zeros((2, c + 1), dtype=int)),
        modes_range=lambda: ra.find_modes(h, [50]), modes_signal=lambda: ra.find_modes(s), convolve_two=lambda: ra.convolve_rir_on_signal(s, two), convolve_rate=lambda: ra.convolve_rir_on_signal(s, rate), start_threshold=lambda: ra.find_ir_start(h, 3.0), descriptors_type=lambda: ra.descriptors(x, D.D50), bass_multi=lambda: ra.descriptors(mb, D.BassRatio),
        rir_room=lambda: rirgen(None, [1, 1, 1], [2, 2, 2], 8000), rir_source=lambda: rirgen(room, [5, 1, 1], [2, 2, 2], 8000), rir_receiver=lambda: rirgen(room, [1, 1, 1], [2, 6, 2], 8000), rir_rate=lambda: rirgen(room, [1, 1, 1], [2, 2, 2], None), rir_detailed=lambda: rirgen(room, [1, 1, 1], [2, 2, 2], 8000, use_detailed_absorption=True),
        room_two=lambda: ra.ShoeboxRoom([4.0, 5.0], 0.6), room_negative=lambda: ra.ShoeboxRoom([4.0, -5.0, 3.0], 0.6), room_none=lambda: ra.ShoeboxRoom([4.0, 5.0, 3.0]), room_short=lambda: ra.ShoeboxRoom([4.0, 5.0, 3.0], 0.01), room_alpha=lambda: ra.ShoeboxRoom([4.0, 5.0, 3.0], None, 1.2), room_alpha_0=lambda: ra.ShoeboxRoom([4.0, 5.0, 3.0], None, 0.0),
        volume=setter(room, "volume", -1.0), area=setter(room, "area", 0.0), absorption=lambda: room.add_detailed_absorption({"north": [0.1]}), in_room=lambda: room.check_if_in_room([1.0, 2.0]), mixing=lambda: room.get_mixing_time("hearing"),
    )
    refuse(ctx, calls, [h, s, rir, two, rate, mb, room, x], lambda h, s, *k: signal_probe(h, s), most=3)


def arrays(ctx):
    k = ctx.int("mics", 3, 8)
    mics = bf.MicArray(dict(x=ctx.rng.normal(size=k), y=ctx.rng.normal(size=k), z=np.zeros(k)))
    s = dsp.Signal(None, ctx.rng.normal(size=(256, k)), 8000)
    s.set_spectrum_parameters(window_length_samples=64)
    less = dsp.Signal(None, ctx.rng.normal(size=(256, k - 1)), 8000)
    a, b = np.linspace(-1, 1, 4), np.linspace(-1, 1, 3)
    grid = bf.Regular2DGrid(a, b, ["x", "y"], 1.0)
    g3 = bf.Regular3DGrid(a, b, a)
    sv = bf.SteeringVector()
    one = dsp.Signal(None, ctx.rng.normal(size=(256, 1)), 8000)
    two = dsp.Signal(None, ctx.rng.normal(size=(256, 2)), 8000)
    src = bf.MonopoleSource(one, [0, 0, 1.0])
    B = bf.BeamformerDASFrequency
    calls = dict(
        points_missing=lambda: bf.MicArray(dict(x=[1.0, 2], y=[1.0, 2])), points_lengths=lambda: bf.MicArray(dict(x=[1.0, 2], y=[1.0, 2, 3], z=[0, 0.0])), coordinates_list=setter(mics, "coordinates", [[1, 2, 3.0]]), closest_2=lambda: mics.find_nearest_point(np.array([1.0, 2.0])), distance_2=lambda: mics.get_distances_to_point(np.array([1.0, 2.0])), projection=lambda: mics.plot_points("4d"),
        grid_three=lambda: bf.Regular2DGrid(a, b, ["x", "y", "z"], 1.0), grid_same=lambda: bf.Regular2DGrid(a, b, ["x", "x"], 1.0), grid_value=lambda: bf.Regular2DGrid(a, b, ["x", "y"], [1.0, 2.0]), map_2d=lambda: grid.reconstruct_map_shape(np.ones((4, 3))), map_length=lambda: grid.reconstruct_map_shape(np.ones(11)), map_plot=lambda: grid.plot_map(np.ones((5, 5))), map3_length=lambda: g3.reconstruct_map_shape(np.ones(47)), map3_2d=lambda: g3.reconstruct_map_shape(np.ones((4, 3))), map3_plot=lambda: g3.plot_map(np.ones((4, 3)), "x", 0.0), map3_dimension=lambda: g3.plot_map(np.ones((4, 3, 4)), "w", 0.0),
        line_2d=lambda: bf.LineGrid(np.ones((3, 2)), "x", 0, 0), line_dimension=lambda: bf.LineGrid(a, "w", 0, 0),
        signal_type=lambda: B(s.time_data, mics, grid, sv), mics_type=lambda: B(s, grid, grid, sv), speed=lambda: B(s, mics, grid, sv, 0.0), channels=lambda: B(less, mics, grid, sv), vector_type=lambda: B(s, mics, grid, None), grid_type=lambda: B(s, mics, mics, sv), time_grid=lambda: bf.BeamformerDASTime(s, mics, None), time_channels=lambda: bf.BeamformerDASTime(less, mics, grid),
        clean_iterations=lambda: bf.BeamformerCleanSC(s, mics, grid, sv).get_beamformer_map(1000, 1, 0), clean_safety=lambda: bf.BeamformerCleanSC(s, mics, grid, sv).get_beamformer_map(1000, 1, 5, 1.5), eigenvalues=lambda: bf.BeamformerOrthogonal(s, mics, grid, sv).get_beamformer_map(1000, 1, k + 1), eigenvalues_0=lambda: bf.BeamformerOrthogonal(s, mics, grid, sv).get_beamformer_map(1000, 1, 0),
        source_two=lambda: bf.MonopoleSource(two, [0, 0, 1.0]), source_2d=lambda: bf.MonopoleSource(one, [0, 0]), sources_none=lambda: bf.mix_sources_on_array([], mics), sources_type=lambda: bf.mix_sources_on_array([src, one], mics), he_three=lambda: B(s, mics, grid, sv).get_frequency_range_from_he([1, 2, 3]),
        steering=lambda: bf.SteeringVector("classic"),
    )
    refuse(ctx, calls, [mics, s, less, grid, g3, src, one, two], lambda m, s, *r: [m.coordinates, m.aperture, m.min_distance] + signal_probe(s), most=4)


def generation(ctx):
    lg = lambda **k: ge.noise(**(dict(length_seconds=0.1, sampling_rate_hz=8000) | k))
    ch = lambda **k: ge.chirp(**(dict(sampling_rate_hz=8000, length_seconds=0.1, range_hz=[20, 3000]) | k))
    di_ = lambda **k: ge.dirac(**(dict(length_samples=100, sampling_rate_hz=8000) | k))
    os_ = lambda **k: ge.oscillator(**(dict(frequency_hz=100, sampling_rate_hz=8000, length_seconds=0.05) | k))
    v = np.arange(5, dtype=np.float32) / 10
    f = np.linspace(0, 500, 20)
    calls = dict(
        noise_rate=lambda: lg(sampling_rate_hz=None), noise_type=lambda: lg(type_of_noise="pink"), noise_length=lambda: lg(length_seconds=0.0), noise_peak=lambda: lg(peak_level_dbfs=3.0), noise_channels=lambda: lg(number_of_channels=0), noise_padding=lambda: lg(padding_end_seconds=-0.1),
        chirp_range=lambda: ch(range_hz=[20]), chirp_zero=lambda: ch(range_hz=[0, 3000]), chirp_high=lambda: ch(range_hz=[20, 4001]), chirp_padding=lambda: ch(padding_end_seconds=-0.1), chirp_type=lambda: ch(type_of_chirp="log"),
        dirac_rate=lambda: di_(sampling_rate_hz=None), dirac_length=lambda: di_(length_samples=0), dirac_float=lambda: di_(length_samples=10.5), dirac_delay=lambda: di_(delay_samples=-1), dirac_delay_long=lambda: di_(delay_samples=100), dirac_channels=lambda: di_(number_of_channels=0), dirac_rate_negative=lambda: di_(sampling_rate_hz=-8000),
        osc_high=lambda: os_(frequency_hz=4000), osc_zero=lambda: os_(frequency_hz=0), osc_padding=lambda: os_(padding_end_seconds=-1.0), osc_cutoff=lambda: os_(harmonic_cutoff_hz=4001), osc_cutoff_low=lambda: os_(mode=ge.WaveForm.Square, harmonic_cutoff_hz=50), osc_type=lambda: os_(mode="square"),
        log_vector=lambda: tools.log_frequency_vector([0, 1000], 3), value_outside=lambda: tools.get_exact_value_at_frequency(f, f, 1000.0), value_length=lambda: tools.get_exact_value_at_frequency(f, f[:-1], 100.0), value_2d=lambda: tools.get_exact_value_at_frequency(np.stack([f, f]), f, 100.0), bands_one=lambda: tools.fractional_octave_frequencies(1, (20,)), bands_reversed=lambda: tools.fractional_octave_frequencies(1, (2000, 20)), erb_one=lambda: tools.erb_frequencies([20]), erb_resolution=lambda: tools.erb_frequencies([20, 2000], 0),
        convert_same=lambda: tools.convert_sample_representation(v, "f32", "f32", True, False), convert_format=lambda: tools.convert_sample_representation(v, "f32", "i12", True, False), scaling_zero=lambda: tools.next_power_2(0), scaling_mode=lambda: tools.next_power_2(5, "nearest"),
        ema=lambda: tools.time_smoothing(f, 8000, -1.0), ema_both=lambda: tools.time_smoothing(f, 8000, 0.0, 0.0), ema_down=lambda: tools.time_smoothing(f, 8000, 0.1, -0.1),
    )
    refuse(ctx, calls, [v, f], most=6)


# ---------------------------------------------------------------- effects
def effects(ctx):
    kind = ctx.pick("kind", ["compressor", "tremolo", "chorus", "delay", "distortion", "subtractor"])
    s = dsp.Signal(None, 0.3 * ctx.rng.normal(size=(2000, ctx.pick("c", [1, 2]))), 8000)
    if kind == "compressor":
        e = fx.Compressor(-20.0, 3.0, 30.0, 4.0)
        if ctx.flag("advanced"):
            e.set_advanced_parameters(3.0, 1.0, 2.0, 60.0)
        calls = dict(attack=lambda: e.set_parameters(attack_time_ms=-1.0), threshold_and_attack=lambda: e.set_parameters(threshold_dbfs=-3.0, attack_time_ms=-1.0), release=lambda: e.set_parameters(attack_time_ms=7.0, release_time_ms=-1.0), ratio=lambda: e.set_parameters(threshold_dbfs=-5.0, attack_time_ms=7.0, release_time_ms=3.0, ratio=0.5), knee=lambda: e.set_advanced_parameters(knee_factor_db=-1.0), mix=lambda: e.set_advanced_parameters(knee_factor_db=9.0, mix_percent=0.0), mix_high=lambda: e.set_advanced_parameters(knee_factor_db=9.0, mix_percent=101.0), new_attack=lambda: fx.Compressor(-20, -1.0), new_ratio=lambda: fx.Compressor(ratio=0.3), apply=lambda: e.apply(s.time_data))
    elif kind == "tremolo":
        e = fx.Tremolo(0.5, fx.LFO(5.0))
        calls = dict(depth=lambda: e.set_parameters(depth=1.5), depth_0=lambda: e.set_parameters(depth=0.0), modulator=lambda: e.set_parameters(depth=0.9, modulator="lfo"), modulator_2d=lambda: e.set_parameters(depth=0.9, modulator=np.ones((5, 2))), depth_and=lambda: e.set_parameters(depth=1.5, modulator=fx.LFO(9.0)), apply=lambda: e.apply(None), new_depth=lambda: fx.Tremolo(2.0, fx.LFO(5.0)))
    elif kind == "chorus":
        e = fx.Chorus([5.0, 6.0], [15.0, 20.0], [fx.LFO(1.0), fx.LFO(2.0)], 70.0)
        calls = dict(base=lambda: e.set_parameters(base_delays_ms=[-1.0, 3.0]), base_three=lambda: e.set_parameters(base_delays_ms=[1.0, 3.0, 4.0], depths_ms=[1.0, 2.0]), modulators=lambda: e.set_parameters(depths_ms=[1.0, 2.0], modulators="lfo"), modulators_three=lambda: e.set_parameters(depths_ms=[1.0, 2.0], base_delays_ms=[9.0, 9.0], modulators=[fx.LFO(1.0)] * 3), modulators_type=lambda: e.set_parameters(base_delays_ms=[9.0, 9.5], modulators=[1.0, 2.0]), mix=lambda: e.set_parameters(depths_ms=[1.0, 2.0], mix_percent=150.0), mix_0=lambda: e.set_parameters(base_delays_ms=[9.0, 9.5], mix_percent=0.0), depth=lambda: e.set_parameters(base_delays_ms=[9.0, 9.5], depths_ms=[-1.0, 2.0]), new_modulators=lambda: fx.Chorus(modulators=3.0), apply=lambda: e.apply([s]))
    elif kind == "delay":
        e = fx.DigitalDelay(20.0, 0.4)
        calls = dict(time=lambda: e.set_parameters(delay_time_ms=0.0), feedback=lambda: e.set_parameters(delay_time_ms=50.0, feedback=-0.5), saturation=lambda: e.set_advanced_parameters(saturation="soft"), new_time=lambda: fx.DigitalDelay(-3.0), apply=lambda: e.apply(3))
    elif kind == "distortion":
        e = fx.Distortion(10.0, 1.0)
        T = fx.DistortionType
        calls = dict(mix_high=lambda: e.set_advanced_parameters([T.Arctan, T.HardClip], [10, 20], [110, -10], [0, 0]), mix_sum=lambda: e.set_advanced_parameters([T.Arctan, T.HardClip], [10, 20], [50, 40], [0, 0]), mix_length=lambda: e.set_advanced_parameters([T.Arctan, T.HardClip], [10, 20], [100], [0, 0]), levels=lambda: e.set_advanced_parameters([T.Arctan, T.HardClip], [10, 20, 30], [50, 50], [0, 0]), offsets=lambda: e.set_advanced_parameters([T.Arctan, T.HardClip], [10, 20], [50, 50], [0, 0, 0]), type=lambda: e.set_advanced_parameters(["soft"], [10], [100], [0]), apply=lambda: e.apply(s.time_data))
    else:
        e = fx.SpectralSubtractor(True, -30.0, 0.02)
        calls = dict(mode=lambda: e.set_parameters(adaptive_mode=1), threshold=lambda: e.set_parameters(adaptive_mode=False, threshold_rms_dbfs="low"), block=lambda: e.set_parameters(adaptive_mode=False, threshold_rms_dbfs=-9.0, block_length_s="long"), spectrum=lambda: e.set_parameters(block_length_s=0.04, spectrum_to_subtract=[1, 2]), spectrum_2d=lambda: e.set_parameters(block_length_s=0.04, spectrum_to_subtract=np.ones((5, 2))), overlap=lambda: e.set_advanced_parameters(overlap_percent=100), forgetting=lambda: e.set_advanced_parameters(overlap_percent=75, noise_forgetting_factor=0.0), factor=lambda: e.set_advanced_parameters(overlap_percent=75, subtraction_factor=0.0), exponent=lambda: e.set_advanced_parameters(overlap_percent=75, subtraction_exponent=0.0), attack=lambda: e.set_advanced_parameters(overlap_percent=75, ad_attack_time_ms=-1.0), release=lambda: e.set_advanced_parameters(overlap_percent=75, ad_release_time_ms=-1.0), apply=lambda: e.apply(s.time_data))
    refuse(ctx, calls, [e, s], lambda e, s: [e.apply(s).time_data])


# -------------------------------------------------------- other structures
def structures(ctx):
    kind = ctx.pick("kind", ["warped_fir", "warped_iir", "parallel", "kautz", "lattice", "svf", "designer", "linearizer", "state_space", "calibration", "overlap_save"])
    c = ctx.pick("c", [1, 2])
    x = dsp.Signal(None, 0.3 * ctx.rng.normal(size=(200, c)), 48000)
    y = dsp.Signal(None, 0.3 * ctx.rng.normal(size=(200, c)), 44100)
    ir2 = dsp.ImpulseResponse(None, 0.3 * ctx.rng.normal(size=(200, 2)), 48000)
    poles = np.array([0.5 + 0.2j, 0.3 + 0.6j, 0.7])
    fir = dsp.Filter.from_ba(ctx.rng.normal(size=6), [1.0], 48000)
    iir = dsp.Filter.iir_filter(3, 3000.0, dsp.FilterPassType.Lowpass, 48000)
    probe = lambda e, *r: [e.filter_signal(x).time_data]
    if kind == "warped_fir":
        e = fb.WarpedFIR(ctx.rng.normal(size=5), 0.4, 48000)
        calls = dict(factor=lambda: fb.WarpedFIR(np.ones(4), 1.0, 48000), channels=lambda: e.set_n_channels(0), rate=lambda: e.filter_signal(y), iir=lambda: fb.WarpedFIR.from_filter(iir, 0.3))
    elif kind == "warped_iir":
        e = fb.WarpedIIR.from_filter(iir, 0.4)
        calls = dict(factor=lambda: fb.WarpedIIR.from_filter(iir, 1.2), channels=lambda: e.set_n_channels(0), rate=lambda: e.filter_signal(y), fir=lambda: fb.WarpedIIR.from_filter(fir, 0.3))
    elif kind == "parallel":
        e = fb.ParallelFilter(poles, 2, 48000)
        e.fit_to_ir(dsp.ImpulseResponse(None, ir2.time_data[:, :1], 48000))
        calls = dict(n_fir=lambda: fb.ParallelFilter(poles, -1, 48000), unstable=lambda: fb.ParallelFilter(np.array([1.2]), 0, 48000), negative=lambda: fb.ParallelFilter(poles.conj(), 0, 48000), origin=lambda: fb.ParallelFilter(np.array([0.0]), 0, 48000), repeated=lambda: fb.ParallelFilter(np.array([0.3, 0.3]), 0, 48000), delay=lambda: e.set_parameters(-1), rate=lambda: e.filter_signal(y), two=lambda: e.fit_to_ir(ir2), coefficients=lambda: e.set_coefficients(np.ones((1, 2))), coefficients_1d=lambda: e.set_coefficients(np.ones(3)), fir_2d=lambda: e.set_coefficients(0.5 * np.ones((len(e.filter_bank), 2)), np.ones((2, 2))))
    elif kind == "kautz":
        e = fb.KautzFilter(poles, 48000)
        e.fit_coefficients_to_ir(dsp.ImpulseResponse(None, ir2.time_data[:, :1], 48000))
        calls = dict(unstable=lambda: fb.KautzFilter(np.array([1.2]), 48000), rate=lambda: e.filter_signal(y), two=lambda: e.fit_coefficients_to_ir(ir2), two_poles=lambda: e.fit_poles_and_coefficients_to_ir(ir2, 2), coefficients=lambda: e.set_filter_coefficients(np.ones(7), np.ones(9)))
    elif kind == "lattice":
        b, a = iir.get_coefficients(Ba)
        e = fb.LatticeLadderFilter.from_filter(iir)
        calls = dict(rate=lambda: e.filter_signal(y), rate_none=lambda: fb.LatticeLadderFilter(np.array([0.1]), None, None), c_length=lambda: fb.LatticeLadderFilter(np.array([0.1, 0.2]), np.ones(2), 48000), k_3d=lambda: fb.LatticeLadderFilter(np.ones((2, 2, 2)), None, 48000), sos_no_c=lambda: fb.LatticeLadderFilter(np.ones((2, 2)) * 0.1, None, 48000), sos_k=lambda: fb.LatticeLadderFilter(np.ones((2, 3)) * 0.1, np.ones((2, 3)), 48000), sos_c=lambda: fb.LatticeLadderFilter(np.ones((2, 2)) * 0.1, np.ones((2, 2)), 48000), sections=lambda: fb.LatticeLadderFilter(np.ones((2, 2)) * 0.1, np.ones((3, 3)), 48000), channels=lambda: e.set_n_channels(0))
    elif kind == "svf":
        e = fb.StateVariableFilter(1000.0, 1.0, 48000)
        probe = lambda e, *r: [q.time_data for q in e.filter_signal(x).bands]
        calls = dict(rate=lambda: e.filter_signal(y), high=lambda: e.set_parameters(24000.0, 1.0, 1), zero=lambda: e.set_parameters(0.0, 1.0, 1), channels=lambda: e.set_n_channels(0), new=lambda: fb.StateVariableFilter(30000.0, 1.0, 48000))
    elif kind == "designer":
        n = 64
        gd, mag = np.full(n // 2 + 1, 1e-3), np.ones(n // 2 + 1)
        e = fb.FirDesigner(mag, gd, n, 48000)
        probe = lambda e, *r: [e.get_filter().ba[0]]
        calls = dict(delay=lambda: e.set_parameters(delay_increase_ms=-1.0), additional=lambda: e.set_parameters(delay_increase_ms=2.0, additional_length_samples=-1), length=lambda: fb.FirDesigner(mag, gd[:-1], n, 48000), lengths=lambda: fb.FirDesigner(mag[:-1], gd, n, 48000), gd_2d=lambda: fb.FirDesigner(mag, np.stack([gd, gd]), n, 48000))
    elif kind == "linearizer":
        n = 64
        e = fb.PhaseLinearizer(-np.linspace(0, 20, n // 2 + 1), n, 48000)
        probe = lambda e, *r: [e.get_filter().ba[0]]
        calls = dict(delay=lambda: e.set_parameters(delay_increase_percent=-1.0), additional=lambda: e.set_parameters(delay_increase_percent=50.0, additional_length_samples=-1), length=lambda: fb.PhaseLinearizer(-np.linspace(0, 20, n // 2), n, 48000), gd_length=lambda: fb.GroupDelayDesigner(np.ones(n), n, 48000))
    elif kind == "state_space":
        e = fb.StateSpaceFilter.from_filter(iir)
        e.set_n_channels(1)
        probe = lambda e, *r: [np.array([e.process_sample(v, 0) for v in x.time_data[:20, 0]])]
        calls = dict(shapes=lambda: fb.StateSpaceFilter(np.ones((2, 3)), np.ones((2, 1)), np.ones((1, 2)), np.ones((1, 1))), fir_real_time=lambda: fb.FIRFilter.from_filter(iir))
    elif kind == "overlap_save":
        e = fb.FIRFilterOverlapSave.from_filter(fir)
        e.prepare(16, 1)
        probe = lambda e, *r: [e.process_block(x.time_data[:16, 0], 0)]
        calls = dict(sample=lambda: e.process_sample(0.3, 0), channels=lambda: e.set_n_channels(2), iir=lambda: fb.FIRFilterOverlapSave.from_filter(iir), two_d=lambda: fb.FIRFilterOverlapSave(np.ones((4, 2))))
    else:
        e = dsp.CalibrationData(dsp.Signal(None, np.sin(np.arange(4800)[:, None] * 0.13), 48000))
        e.calibrate_signal(x)
        two = dsp.CalibrationData(dsp.Signal(None, np.sin(np.arange(4800)[:, None] * 0.13 * np.ones((1, 2 + c))), 48000))
        probe = lambda e, *r: [e.calibrate_signal(x).time_data]
        calls = dict(new=lambda: dsp.CalibrationData(3), tuple_3=lambda: dsp.CalibrationData((1, 2, 3)), add=lambda: e.add_calibration_channel(4), add_rate=lambda: e.add_calibration_channel((np.ones(4800), 44100)), add_tuple=lambda: e.add_calibration_channel((1, 2, 3)), channels=lambda: two.calibrate_signal(x), type=lambda: e.calibrate_signal(x.time_data))
    refuse(ctx, calls, [e, x, y, ir2, fir, iir], probe, most=4)


MORE = 3  # times the number of cases below in the quick tier
FAMILIES = [
    Family("signals", signals, 250, 8000),
    Family("saving", saving, 60, 1500),
    Family("multiband", multiband, 200, 6000),
    Family("filters", filters, 200, 6000),
    Family("banks", banks, 200, 6000),
    Family("crossovers", crossovers, 80, 2000),
    Family("spectra", spectra, 200, 6000),
    Family("standard", standard, 200, 5000),
    Family("transfer_functions", transfer, 160, 4000),
    Family("distances", distance, 50, 1000),
    Family("transforms", transform, 100, 2500),
    Family("rooms", rooms, 80, 1500),
    Family("beamforming", arrays, 120, 3000),
    Family("generators_tools", generation, 80, 2000),
    Family("effects", effects, 200, 5000),
    Family("structures", structures, 250, 6000),
]
