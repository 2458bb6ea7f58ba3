"""P04: objects saved and loaded or copied equal the original and are independent of it.

Every builder is a deterministic function of the drawn choices and a seed, so a reference object that never was copied or saved can be
built at any time.  The loaded or copied object is compared with that reference in its public state, its stored coefficients and its
behaviour, then random edits are made on one side and the other side is compared with the reference again.
Audio files are read back with an independent parser for wav files (chunks read by hand) and through the soundfile library.
"""

import contextlib
import io
import os
import struct
import tempfile
import warnings

import numpy as np
import soundfile as sf
import dsptoolbox as dsp
from dsptoolbox import filterbanks as fb
from rtm.core import Family
from rtm.snap import snap, diff, shared

PROPERTY = "P04"
Ba, Sos, Zpk = dsp.FilterCoefficientsType.Ba, dsp.FilterCoefficientsType.Sos, dsp.FilterCoefficientsType.Zpk
Par, Seq = dsp.FilterBankMode.Parallel, dsp.FilterBankMode.Sequential


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


# ---------------------------------------------------------------- builders
def make_signal(p):
    r = np.random.default_rng(p["seed"])
    n, c = p["n"], p["c"]
    x = r.normal(size=(n, c)) * p["level"]
    if p["complex"]:
        x = x + 1j * r.normal(size=(n, c)) * p["level"]
    s = p["cls"](None, x, p["fs"], p["constrained"], p["cache"])
    s.info = {"name": "x", "take": 3, "list": [1, 2]}
    s.calibrated_signal = p["calibrated"]
    if p["settings"]:
        s.set_spectrum_parameters(p["method"] if p["cls"] is dsp.Signal else dsp.SpectrumMethod.FFT, window_length_samples=32, overlap_percent=25, window_type=dsp.Window.Blackman, scaling=p["scaling"], pad_to_fast_length=p["pad"])
        s.set_spectrogram_parameters(window_length_samples=16, overlap_percent=50, detrend=False)
    if p["cls"] is dsp.ImpulseResponse and p["window"]:
        s.set_window(np.linspace(1, 0, n)[:, None] * np.ones((1, c)))
    if p["read"]:
        s.get_spectrum()
        s.time_vector_s
        if n >= 32 and p["settings"]:
            s.get_spectrogram()
            if c > 1:
                s.get_csm()
    return s


def signal_choices(ctx, cls=None):
    return dict(
        cls=cls or ctx.pick("cls", [dsp.Signal, dsp.Signal, dsp.ImpulseResponse]), n=ctx.pick("n", [64, 100, 333]), c=ctx.pick("c", [1, 2, 3]), fs=ctx.pick("fs", [8000, 44100, 48000]),
        level=ctx.pick("level", [0.1, 1.0, 30.0]), complex=ctx.flag("complex", 0.2), constrained=ctx.flag("constrained"), cache=ctx.flag("cache"), calibrated=ctx.flag("calibrated", 0.2), settings=ctx.flag("settings"),
        method=ctx.pick("method", list(dsp.SpectrumMethod)), scaling=ctx.pick("scaling", list(dsp.SpectrumScaling)), pad=ctx.flag("pad"), window=ctx.flag("window"), read=ctx.flag("read"), seed=ctx.int("seed", 0, 10**6),
    )


def probe_signal(s):
    out = [s.time_data, s.time_vector_s, *s.get_spectrum(), np.array([s.amplitude_scale_factor])]
    if s.time_data_imaginary is not None:
        out.append(s.time_data_imaginary)
    try:
        out += list(s.get_spectrogram())
        if s.number_of_channels > 1:
            out += list(s.get_csm())
    except Exception as e:
        out.append(np.array([len(type(e).__name__)]))
    if isinstance(s, dsp.ImpulseResponse) and getattr(s, "window", None) is not None:
        out.append(s.window)
    return out


def edit_signal(r):
    def data(s):
        s.time_data[...] *= 0.5

    def replace(s):
        s.time_data = r.normal(size=(50, 2)) * 0.1

    def add(s):
        s.add_channel(None, r.normal(size=(len(s), 1)) * 0.1, s.sampling_rate_hz)

    def info(s):
        s.info["name"] = "y"
        s.info["list"].append(4)

    def window(s):
        if isinstance(s, dsp.ImpulseResponse):
            s.set_window(np.full(s.time_data.shape, 0.3))
            s.window[...] = 0.1
        else:
            s.set_spectrum_parameters(dsp.SpectrumMethod.FFT, smoothing=3)

    def stored(s):
        s._spectrum_parameters["overlap_percent"] = 10
        s._spectrogram_parameters["overlap_percent"] = 10

    def rest(s):
        s.calibrated_signal = not s.calibrated_signal
        s.activate_cache = not s.activate_cache
        s.spectrum_scaling = dsp.SpectrumScaling.AmplitudeSpectrum

    return dict(data=data, replace=replace, add=add, rate=lambda s: setattr(s, "sampling_rate_hz", 16000), constrain=lambda s: setattr(s, "constrain_amplitude", not s.constrain_amplitude), info=info, window=window, spectrogram=lambda s: s.set_spectrogram_parameters(window_length_samples=8), stored=stored, rest=rest, swap=lambda s: s.swap_channels(np.arange(s.number_of_channels)[::-1]), results=results_edit)


def results_edit(s):
    for a in s.get_spectrum() + ((s.time_vector_s,) if hasattr(s, "time_vector_s") else ()):
        if a.flags.writeable:
            a[...] = 7


def make_multiband(p):
    r = np.random.default_rng(p["seed"])
    bands = []
    for i in range(p["bands"]):
        fs = 48000 if not p["multirate"] else 48000 // 2**i
        n = 128 if not p["multirate"] else 128 // 2**i
        x = r.normal(size=(n, p["c"]))
        if p["complex"]:
            x = x + 1j * r.normal(size=x.shape)
        b = p["cls"](None, x, fs, p["constrained"], p["cache"])
        if i == 1 and p["settings"] and p["cls"] is dsp.Signal:
            b.set_spectrum_parameters(dsp.SpectrumMethod.WelchPeriodogram, window_length_samples=16)
        b.info = {"band": i}
        bands.append(b)
    return dsp.MultiBandSignal(bands, not p["multirate"], {"kind": "m", "list": [1]})


def probe_multiband(m):
    out = [np.atleast_1d(m.sampling_rate_hz), np.atleast_1d(m.length_samples), np.array([m.number_of_bands, m.number_of_channels])]
    for b in m.bands:
        out += [b.time_data, *b.get_spectrum()]
        if b.time_data_imaginary is not None:
            out.append(b.time_data_imaginary)
    if m.same_sampling_rate and not m.is_complex_signal:
        out.append(m.collapse().time_data)
    return out


def edit_multiband(r):
    def data(m):
        m.bands[0].time_data[...] *= 0.5

    def other(m):
        m.bands[-1].time_data = m.bands[-1].time_data * 0.1 + (0 if m.bands[-1].time_data_imaginary is None else 1j * m.bands[-1].time_data_imaginary)

    def info(m):
        m.info["kind"] = 2
        m.info["list"].append(4)
        m.bands[0].info["band"] = 99

    def order(m):
        m.bands.reverse()

    return dict(data=data, other=other, info=info, order=order, remove=lambda m: m.remove_band(), add=lambda m: m.add_band(m.bands[0].copy(), 0), settings=lambda m: m.bands[0].set_spectrum_parameters(dsp.SpectrumMethod.FFT, smoothing=6), append=lambda m: m.bands.append(m.bands[0]), clear=lambda m: m.bands[0].constrain_amplitude if False else m.bands[0].set_spectrogram_parameters(window_length_samples=8))


def a_filter(p, r, fs=48000):
    kind = p["kind"]
    if kind == "fir":
        f = dsp.Filter.from_ba(r.normal(size=9), [1.0], fs)
    elif kind == "ba":
        f = dsp.Filter.iir_filter(3, 2000.0, dsp.FilterPassType.Lowpass, fs)
        b, a = f.get_coefficients(Ba)
        f = dsp.Filter.from_ba(b, a, fs)
    elif kind == "zpk":
        f = dsp.Filter({Zpk: [np.array([0.3, -0.4]), np.array([0.5 + 0.3j, 0.5 - 0.3j]), 0.7]}, fs)
    elif kind == "biquad":
        f = dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 1000 + 3000 * r.random(), 4.0, 1.0, fs)
    else:
        f = dsp.Filter.iir_filter(4, 1000 + 3000 * r.random(), dsp.FilterPassType.Highpass, fs)
    return f


def make_filter(p):
    r = np.random.default_rng(p["seed"])
    f = a_filter(p, r)
    if p["read"]:
        with quiet():
            for t in (Ba, Sos, Zpk):
                f.get_coefficients(t)
    if p["streaming"]:
        f.initialize_zi(p["c"])
        f.filter_signal(dsp.Signal(None, r.normal(size=(40, p["c"])), 48000), activate_zi=True)
    f.warning_if_complex = p["warn"]
    return f


def block(c, seed=5):
    return dsp.Signal(None, np.random.default_rng(seed).normal(size=(60, c)), 48000)


def probe_filter(c):
    def probe(f):
        if f.sampling_rate_hz != 48000:
            return [np.array([f.sampling_rate_hz])]
        w = np.linspace(0, 24000, 40)
        out = [f.get_transfer_function(w)]
        for t in (Ba, Sos, Zpk):
            if f.has_sos or t is not Sos:
                out += [np.atleast_1d(np.asarray(v, dtype=complex)) for v in f.get_coefficients(t)]
        out += [f.filter_signal(block(c)).time_data, f.get_ir(50).time_data]
        # continue the stream
        out += [f.filter_signal(block(c, 6), activate_zi=True).time_data, f.filter_signal(block(c, 7), activate_zi=True).time_data]
        return out

    return probe


def edit_filter(c):
    def coefficients(f):
        for v in (f.ba if f.has_ba else []):
            if isinstance(v, np.ndarray):
                v[...] *= 2
        if f.has_sos:
            f.sos[...] *= 2

    def zpk(f):
        if f.has_zpk:
            np.asarray(f.zpk[0])[...] *= 0.5
            f.zpk[2] = 3.0

    def state(f):
        if hasattr(f, "zi") and f.zi:
            for z in f.zi:
                z[...] = 1

    return dict(coefficients=coefficients, zpk=zpk, state=state, stream=lambda f: f.filter_signal(block(c, 9), activate_zi=True), reset=lambda f: f.initialize_zi(c), rate=lambda f: setattr(f, "sampling_rate_hz", 44100), warn=lambda f: setattr(f, "warning_if_complex", not f.warning_if_complex), new=lambda f: setattr(f, "ba", [[0.5, 0.2], [1.0]]))


def make_bank(p):
    r = np.random.default_rng(p["seed"])
    kind = p["bank"]
    if kind == "plain":
        b = dsp.FilterBank([a_filter(p | {"kind": k}, r) for k in p["kinds"]], True, {"name": "b"})
    elif kind == "lr":
        b = fb.linkwitz_riley_crossovers([500.0, 4000.0], [4, 2], 48000)
    elif kind == "gammatone":
        b = fb.auditory_filters_gammatone([200, 3000], 2, 48000)
    elif kind == "qmf":
        b = fb.qmf_crossover(dsp.Filter.fir_filter(31, 12000.0, dsp.FilterPassType.Lowpass, 48000))
    else:
        b = fb.fractional_octave_bands([125, 4000], 1, 4, 48000)[0]
    if p["streaming"]:
        b.filter_signal(dsp.Signal(None, r.normal(size=(40, p["c"])), 48000), Par, activate_zi=True)
    return b


def probe_bank(c):
    def probe(b):
        out = [q.time_data for q in b.filter_signal(block(c), Par).bands]
        for s in (6, 7):
            out += [q.time_data for q in b.filter_signal(block(c, s), Par, activate_zi=True).bands]
        out += [q.time_data for q in b.get_ir(64, Par).bands]
        return out

    return probe


def edit_bank(c):
    def state(b):
        for f in getattr(b, "filters", []):
            if getattr(f, "zi", None):
                for z in f.zi:
                    z[...] = 1

    def coefficients(b):
        for f in getattr(b, "filters", []):
            if f.has_sos:
                f.sos[...] *= 2
            elif f.has_ba:
                f.ba[0][...] *= 2

    def info(b):
        b.info["name"] = "other"

    def order(b):
        if isinstance(b, dsp.FilterBank):
            b.swap_filters(np.arange(b.number_of_filters)[::-1])

    def add(b):
        if isinstance(b, dsp.FilterBank):
            b.add_filter(dsp.Filter.from_ba([0.1], [1.0], 48000), 0)

    return dict(state=state, coefficients=coefficients, info=info, order=order, add=add, stream=lambda b: b.filter_signal(block(c, 9), Par, activate_zi=True), remove=lambda b: b.remove_filter() if isinstance(b, dsp.FilterBank) else b.info.clear())


def make_spectrum(p):
    r = np.random.default_rng(p["seed"])
    n, c = p["n"], p["c"]
    f = np.linspace(0, 20000, n) if p["spacing"] == "lin" else np.geomspace(20, 20000, n) if p["spacing"] == "log" else np.cumsum(r.uniform(1, 50, n))
    y = r.uniform(0.1, 2, (n, c))
    if p["complex"]:
        y = y * np.exp(1j * r.uniform(-3, 3, (n, c)))
    s = dsp.Spectrum(f, y)
    if p["coherence"]:
        s.set_coherence(r.uniform(0, 1, (n, c)))
    if p["interpolator"]:
        s.set_interpolator_parameters(p["domain"], p["scheme"], p["edges"])
    s.info = {"name": "sp"}
    return s


def probe_spectrum(s):
    f = s.frequency_vector_hz
    out = [f, s.spectral_data, s.get_energy()]
    if s.has_coherence:
        out.append(s.coherence)
    q = f[:-1] + 0.3 * np.diff(f)
    out.append(s.get_interpolated_spectrum(q, dsp.SpectrumType.Magnitude))
    out.append(s.get_channels(0).spectral_data)
    return out


def edit_spectrum(r):
    def data(s):
        s.spectral_data[...] *= 2

    def freqs(s):
        s.frequency_vector_hz[...] += 1

    def coherence(s):
        if s.has_coherence:
            s.coherence[...] = 0.5
        else:
            s.set_coherence(np.full(s.spectral_data.shape, 0.5))

    def info(s):
        s.info["name"] = "t"

    return dict(data=data, freqs=freqs, coherence=coherence, info=info, interpolator=lambda s: s.set_interpolator_parameters(dsp.InterpolationDomain.Magnitude, dsp.InterpolationScheme.Linear, dsp.InterpolationEdgeHandling.ZeroPad), trim=lambda s: s.trim(None, s.frequency_vector_hz[-3]), smooth=lambda s: s.apply_octave_smoothing(3), replace=lambda s: setattr(s, "spectral_data", np.ones(s.spectral_data.shape)))


# ------------------------------------------------------------------- oracle
def same(ctx, key, obj, ref, probe):
    """Public state and then the results of two objects; the probe may change both."""
    d = diff(snap(ref), snap(obj))
    ctx.ok(f"{key}/state", d is None, f"{d}")
    ctx.ok(f"{key}/type", type(obj) is type(ref), f"{type(obj).__name__} instead of {type(ref).__name__}")
    with quiet():
        a, b = probe(obj), probe(ref)
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x), np.asarray(y)
        ctx.ok(f"{key}/results", x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"), f"result {i}: {x.dtype}{x.shape} {y.dtype}{y.shape}")
    ctx.ok(f"{key}/results", len(a) == len(b), f"{len(a)} instead of {len(b)} results")


def trial(ctx, build, probe, edits, save=None):
    """A copy and, if there is a way to save it, a loaded object."""
    how = ctx.pick("how", ["copy"] + (["load", "load"] if save else []))
    with quiet():
        o = build()
        before = snap(o)
        if how == "copy":
            c = o.copy()
        else:
            with tempfile.TemporaryDirectory() as d:
                folder = os.path.join(d, ctx.pick("folder", ["plain", "with.dot", "a b"]))
                os.mkdir(folder)
                stem = os.path.join(folder, ctx.pick("stem", ["obj", "OBJ_1", "o-b j"]))
                if ctx.flag("exists", 0.2):
                    with open(stem + ".pkl", "wb") as h:
                        h.write(b"x" * 100000)
                save(o, stem, ctx)
                late = ctx.flag("edit_before_load", 0.3)
                ctx.ok("files", os.listdir(folder) == [os.path.basename(stem) + ".pkl"], f"{os.listdir(folder)}")
                d1 = diff(before, snap(o))
                ctx.ok("unchanged_by_saving", d1 is None, f"{d1}")
                if late:
                    done = run(ctx, o, edits)
                c = dsp.load_pkl_object(stem + (".pkl" if ctx.flag("with_extension") else ""))
                if late:
                    ctx.note(f"edited {done} before loading")
                    same(ctx, "loaded", c, build(), probe)
                    return
    if how == "copy":
        d1 = diff(before, snap(o))
        ctx.ok("unchanged_by_copy", d1 is None, f"{d1}")
    m = shared(c, o)
    ctx.ok("memory", m is None, f"{m}")
    side = ctx.pick("edited", ["none", "original", "copy"])
    if side == "none":
        same(ctx, how, c, build(), probe)
        same(ctx, "original", o, build(), probe)
        return
    changed, kept = (o, c) if side == "original" else (c, o)
    with quiet():
        done = run(ctx, changed, edits)
    same(ctx, f"{how}_after_edit", kept, build(), probe)


def run(ctx, obj, edits):
    names = list(edits)
    chosen = [names[i] for i in ctx.rng.permutation(len(names))[: ctx.int("edits", 1, 3)]]
    ctx.note(f"{chosen}")
    for e in chosen:
        try:
            edits[e](obj)
        except Exception as err:
            ctx.note(f"{e}: {type(err).__name__}")
    return chosen


def saver(name):
    def save(o, stem, ctx):
        r = getattr(o, name)(stem + (".pkl" if ctx.flag("extension") and not type(o).__name__ == "LRFilterBank" else ""), **(dict(mode="pkl") if type(o) in (dsp.Signal, dsp.ImpulseResponse) else {}))
        ctx.ok("returns_self", r is o or r is None, f"{type(r)}")

    return save


# ----------------------------------------------------------------- families
def signals(ctx):
    p = signal_choices(ctx)
    trial(ctx, lambda: make_signal(p), probe_signal, edit_signal(ctx.rng), saver("save_signal"))


def multiband(ctx):
    p = dict(bands=ctx.int("bands", 1, 4), c=ctx.pick("c", [1, 2]), multirate=ctx.flag("multirate", 0.3), complex=ctx.flag("complex", 0.2), constrained=ctx.flag("constrained", 0.3), cache=ctx.flag("cache"), settings=ctx.flag("settings"), cls=ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse]), seed=ctx.int("seed", 0, 10**6))
    trial(ctx, lambda: make_multiband(p), probe_multiband, edit_multiband(ctx.rng), saver("save_signal"))


def filters(ctx):
    c = ctx.pick("c", [1, 2, 3])
    p = dict(kind=ctx.pick("kind", ["fir", "ba", "zpk", "biquad", "sos"]), c=c, streaming=ctx.flag("streaming", 0.6), read=ctx.flag("read"), warn=ctx.flag("warn"), seed=ctx.int("seed", 0, 10**6))
    trial(ctx, lambda: make_filter(p), probe_filter(c), edit_filter(c), saver("save_filter"))


def banks(ctx):
    c = ctx.pick("c", [1, 2])
    p = dict(bank=ctx.pick("bank", ["plain", "plain", "plain", "lr", "gammatone", "qmf", "octave"]), kinds=[["fir", "ba", "zpk", "biquad", "sos"][i] for i in ctx.rng.integers(0, 5, ctx.int("filters", 1, 4))], c=c, streaming=ctx.flag("streaming", 0.6), seed=ctx.int("seed", 0, 10**6))
    trial(ctx, lambda: make_bank(p), probe_bank(c), edit_bank(c), saver("save_filterbank"))


def spectra(ctx):
    p = dict(n=ctx.pick("n", [8, 33, 200]), c=ctx.pick("c", [1, 2, 3]), spacing=ctx.pick("spacing", ["lin", "log", "other"]), complex=ctx.flag("complex"), coherence=ctx.flag("coherence"), interpolator=ctx.flag("interpolator"), domain=ctx.pick("domain", [dsp.InterpolationDomain.Magnitude, dsp.InterpolationDomain.Power, dsp.InterpolationDomain.MagnitudePhase]), scheme=ctx.pick("scheme", list(dsp.InterpolationScheme)), edges=ctx.pick("edges", list(dsp.InterpolationEdgeHandling)), seed=ctx.int("seed", 0, 10**6))
    if p["domain"] == dsp.InterpolationDomain.MagnitudePhase and not p["complex"]:
        p["domain"] = dsp.InterpolationDomain.Power
    trial(ctx, lambda: make_spectrum(p), probe_spectrum, edit_spectrum(ctx.rng), saver("save_spectrum"))


# -------------------------------------------------------------- audio files
def parse_wav(path):
    """Chunks of a wav file read by hand: (sampling rate, bits, format tag, data)."""
    raw = open(path, "rb").read()
    assert raw[:4] == b"RIFF" and raw[8:12] == b"WAVE", raw[:12]
    pos, fmt, data = 12, None, None
    while pos + 8 <= len(raw):
        name, size = raw[pos : pos + 4], struct.unpack("<I", raw[pos + 4 : pos + 8])[0]
        body = raw[pos + 8 : pos + 8 + size]
        if name == b"fmt ":
            fmt = struct.unpack("<HHIIHH", body[:16])
            tag = fmt[0] if fmt[0] != 0xFFFE else struct.unpack("<H", body[24:26])[0]
        elif name == b"data":
            data = body
        pos += 8 + size + size % 2
    _, channels, rate, _, _, bits = fmt
    if tag == 3:
        x = np.frombuffer(data, "<f4" if bits == 32 else "<f8").astype(np.float64)
    elif bits == 16:
        x = np.frombuffer(data, "<i2") / 2.0**15
    else:
        b = np.frombuffer(data, np.uint8).reshape(-1, 3).astype(np.int32)
        x = ((b[:, 0] | b[:, 1] << 8 | b[:, 2] << 16) ^ 0x800000) - 0x800000
        x = x / 2.0**23
    return rate, bits, tag, x.reshape(-1, channels)


def audio(ctx):
    mode = ctx.pick("mode", ["wav", "wav", "flac"])
    depth = ctx.pick("depth", [16, 24, 32, 64] if mode == "wav" else [16, 24])
    c = ctx.pick("c", [1, 2, 3, 4, 8])
    n = max(c + 1, ctx.pick("n", [8, 20, 100, 1000, 4801]))
    fs = ctx.pick("fs", [8000, 11025, 44100, 48000, 96000, 192000])
    level = ctx.pick("level", [0.01, 0.5, 1.0]) if depth in (16, 24) else ctx.pick("level_f", [1e-4, 0.5, 1.0, 25.0])
    x = ctx.rng.uniform(-1, 1, (n, c)) * level
    if ctx.flag("edges", 0.3):
        x[0, 0], x[1, 0] = level, -level
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    s = cls(None, x, fs, constrain_amplitude=False)
    if ctx.flag("read"):
        s.get_spectrum()
    before = snap(s)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "rec")
        ext = ctx.flag("extension")
        r = s.save_signal(p + ("." + mode if ext else ""), ctx.pick("case", [mode, mode.upper()]), depth) if depth != 32 or ctx.flag("explicit") else s.save_signal(p + ("." + mode if ext else ""), mode)
        d1 = diff(before, snap(s))
        ctx.ok("saving_changes_nothing", d1 is None, f"{d1}")
        ctx.ok("saving_returns_self", r is s, "")
        p = p + "." + mode
        ctx.ok("audio_file", os.listdir(d) == ["rec." + mode], f"{os.listdir(d)}")
        info = sf.info(p)
        ctx.ok("subtype", info.subtype == {16: "PCM_16", 24: "PCM_24", 32: "FLOAT", 64: "DOUBLE"}[depth] and info.format == mode.upper(), f"{info.format} {info.subtype} for {mode} {depth}")
        y, rate = sf.read(p, always_2d=True)
        if mode == "wav":
            rate2, bits, tag, z = parse_wav(p)
            ctx.ok("wav_header", rate2 == fs and bits == depth and tag == (1 if depth in (16, 24) else 3) and z.shape == (n, c), f"{rate2} {bits} {tag} {z.shape}")
            err = np.max(np.abs(z - x)) if z.shape == x.shape else np.inf
            ctx.ok("wav_data", err <= {16: 2.0**-15, 24: 2.0**-23, 32: 2.0**-23 * level, 64: 0.0}[depth] * 1.0000001, f"error {err:.2e} at {depth} bit")
        err = np.max(np.abs(y - x)) if y.shape == x.shape else np.inf
        ctx.ok("file_data", rate == fs and err <= {16: 2.0**-15, 24: 2.0**-23, 32: 2.0**-23 * level, 64: 0.0}[depth] * 1.0000001, f"{y.shape} at {rate} error {err:.2e} at {depth} bit")
        if y.shape != x.shape:
            return
        for name, load in [("Signal", lambda: dsp.Signal(p)), ("Signal.from_file", lambda: dsp.Signal.from_file(p)), ("ImpulseResponse", lambda: dsp.ImpulseResponse(p, constrain_amplitude=False)), ("ImpulseResponse.from_file", lambda: dsp.ImpulseResponse.from_file(p))]:
            t = load()
            ctx.ok("loaded_type", type(t).__name__ == name.split(".")[0], f"{type(t).__name__} from {name}")
            k = t.amplitude_scale_factor
            ctx.ok("loaded_rate", t.sampling_rate_hz == fs and isinstance(t.sampling_rate_hz, int), f"{t.sampling_rate_hz!r}")
            ctx.ok("loaded_data", t.time_data.shape == x.shape and np.max(np.abs(t.time_data - y * k)) <= 1e-15 * max(level, 1) and (not t.constrain_amplitude and k == 1 or t.constrain_amplitude), f"{name}: {t.time_data.shape}, factor {k}, constrained {t.constrain_amplitude}")
        # other readers
        bank = dsp.FilterBank.firs_from_file(p)
        ctx.ok("firs", bank.number_of_filters == c and bank.sampling_rate_hz == fs and all(np.array_equal(np.ravel(f.ba[0]), y[:, i]) and np.array_equal(np.ravel(f.ba[1]), [1.0]) for i, f in enumerate(bank.filters)), f"{bank.number_of_filters} filters")
        base = dsp.Signal(None, np.zeros((n, 1)) + 0.25, fs, constrain_amplitude=False)
        base.add_channel(p)
        ctx.ok("added", base.number_of_channels == 1 + c and np.array_equal(base.time_data[:, 1:], y) and np.all(base.time_data[:, 0] == 0.25), f"{base.time_data.shape}")
        # saved once more: the same samples
        q = os.path.join(d, "again." + mode)
        dsp.Signal(p).save_signal(q, mode, depth)
        w, _ = sf.read(q, always_2d=True)
        ctx.ok("second_generation", np.array_equal(w, y), f"{np.max(np.abs(w - y)):.2e}")


def calibration(ctx):
    c = ctx.pick("c", [1, 2, 3])
    fs = ctx.pick("fs", [8000, 48000])
    level = ctx.rng.uniform(0.01, 0.9, c)
    x = np.sin(2 * np.pi * 1000 / fs * np.arange(fs))[:, None] * level
    spl = ctx.pick("spl", [94.0, 114.0])
    snr = ctx.flag("high_snr")

    def build():
        cal = dsp.CalibrationData(dsp.Signal(None, x.copy(), fs), spl, snr)
        if ctx_used:
            cal.calibrate_signal(dsp.Signal(None, x[:50], fs))
        return cal

    ctx_used = ctx.flag("used")
    import copy

    o = build()
    with tempfile.TemporaryDirectory() as d:
        import pickle

        p = os.path.join(d, "cal.pkl")
        how = ctx.pick("how", ["deepcopy", "pickle"])
        if how == "pickle":
            with open(p, "wb") as h:
                pickle.dump(o, h)
            k = dsp.load_pkl_object(p)
        else:
            k = copy.deepcopy(o)
        sig = dsp.Signal(None, ctx.rng.normal(size=(100, c)) * 0.1, fs)
        m = shared(k, o)
        ctx.ok("memory", m is None, f"{m}")
        edit = ctx.pick("edit", ["none", "channel", "level", "factors", "signal"])
        if edit == "channel":
            o.add_calibration_channel((x[:, 0] * 0.5, fs))
        elif edit == "level":
            o.calibration_spl_db = 20.0
        elif edit == "factors" and ctx_used:
            o.calibration_factors[...] = 3
        elif edit == "signal":
            o.calibration_signal.time_data[...] = 0.1
        got = k.calibrate_signal(sig)
        want = build().calibrate_signal(sig)
        ctx.ok("calibrated", np.array_equal(got.time_data, want.time_data) and got.calibrated_signal, f"after {edit}")
        ctx.close("calibrated_level", got.time_data, sig.time_data * 20e-6 * 10 ** (spl / 20) / (level / np.sqrt(2)), rtol=2e-2)
        # from files
        w = os.path.join(d, "tone.wav")
        dsp.Signal(None, x, fs).save_signal(w, "wav", 64)
        f = dsp.CalibrationData(w, spl, snr)
        ctx.ok("calibrated_from_file", np.array_equal(f.calibrate_signal(sig).time_data, want.time_data), "differs")
        t = dsp.CalibrationData((x, fs), spl, snr)
        ctx.ok("calibrated_from_tuple", np.array_equal(t.calibrate_signal(sig).time_data, want.time_data), "differs")


def new_data(ctx):
    """copy_with_new_time_data keeps everything but the samples."""
    p = signal_choices(ctx)
    with quiet():
        s = make_signal(p)
        ref = make_signal(p)
        n, c = ctx.int("new_n", 40, 200), ctx.pick("new_c", [1, 2, 3])
        x = ctx.rng.normal(size=(n, c)) * 0.2
        if ctx.flag("new_complex", 0.3):
            x = x + 1j * ctx.rng.normal(size=(n, c)) * 0.2
        big = np.concatenate([x, x])
        kind = ctx.pick("given", ["own", "view", "list"])
        given = x.copy() if kind == "own" else big[:n] if kind == "view" else x.tolist()
        t = s.copy_with_new_time_data(given)
        a, b = snap(t), snap(s)
        for k in ("sampling_rate_hz", "constrain_amplitude", "calibrated_signal", "activate_cache"):
            ctx.ok("kept", diff(b[2][k], a[2][k]) is None, f"{k}: {b[2][k]} -> {a[2][k]}")
        for k in ("_spectrum_parameters", "_spectrogram_parameters"):
            u, v = dict(b[2][k][1]), dict(a[2][k][1])
            if isinstance(s, dsp.ImpulseResponse):
                u.pop("'method'", None), v.pop("'method'", None)
            ctx.ok("kept", diff(u, v) is None, f"{k}: {diff(u, v)}")
        ctx.ok("kept_type", type(t) is type(s), f"{type(t)}")
        z = t.time_data + (1j * t.time_data_imaginary if t.time_data_imaginary is not None else 0)
        k = t.amplitude_scale_factor
        ctx.ok("new_data", z.shape == x.shape and np.allclose(z, x * k, rtol=1e-12, atol=0) and np.iscomplexobj(x) == t.is_complex_signal, f"{z.shape} instead of {x.shape}")
        if kind == "view":
            m = shared(t, big)
            ctx.ok("owns_data", m is None, f"{m}")
        m = shared(t, s)
        ctx.ok("memory", m is None, f"{m}")
        if ctx.flag("then_edit"):
            run(ctx, t, edit_signal(ctx.rng))
    same(ctx, "source", s, ref, probe_signal)


MORE = 4  # times the number of cases below in the quick tier
FAMILIES = [
    Family("signals", signals, 350, 12000),
    Family("multiband", multiband, 200, 6000),
    Family("filters", filters, 300, 9000),
    Family("banks", banks, 160, 3500),
    Family("spectra", spectra, 250, 8000),
    Family("audio", audio, 200, 5000),
    Family("calibration", calibration, 80, 1500),
    Family("new_data", new_data, 200, 6000),
]
