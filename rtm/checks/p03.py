"""P03: channels are processed independently.

Every channel-wise operation of rtm/ops.py is executed three times on the real
library: with all channels, with one channel alone, and with permuted channels
(or with the other channels replaced by different, louder data)."""

import functools

import numpy as np
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen, ops

PROPERTY = "P03"


def ir(ctx, n, c, fs):
    """Decaying responses with different start, decay and level."""
    x = np.zeros((n, c))
    t = np.arange(n)
    for k in range(c):
        d = int(ctx.rng.integers(5, 60))
        h = ctx.rng.normal(size=n - d) * np.exp(-t[: n - d] / (n * ctx.rng.uniform(0.05, 0.12)))
        h[0] = 3 * ctx.rng.choice([-1, 1])
        x[d:, k] = h * ctx.rng.uniform(0.05, 1.5)
    return x


def data(ctx, kind, n, c, fs, cx=False):
    if kind == "R":
        x = ir(ctx, n, c, fs)
    else:
        x = gen.content(ctx, n, c, fs, ("noise", "tone", "decay", "impulse", "sweep", "mixture"))
        x = x + 1e-5 * ctx.rng.normal(size=x.shape)
        x *= 10 ** ctx.rng.uniform(-2, 0.3, c)
    if cx:
        x = x + 1j * ctx.rng.normal(size=x.shape) * 0.1
    return x


def make(kind, xs, fs):
    if kind == "R":
        return dsp.ImpulseResponse(None, xs[0].copy(), fs, constrain_amplitude=False)
    if kind == "S":
        return dsp.Signal(None, xs[0].copy(), fs)
    return dsp.MultiBandSignal([dsp.Signal(None, x.copy(), fs) for x in xs])


def case(ctx, kind, name):
    o = ops.OPS[name]
    fs = ctx.pick("fs", [16000, 44100, 48000])
    n = ctx.int("n", 1600, 4000) * (3 if name in ROOM else 1)
    c = ctx.int("ch", 2, 5)
    cx = o.complex_ok and ctx.flag("complex", 0.4)
    xs = [data(ctx, kind, n, c, fs, cx) for _ in range(ctx.int("bands", 1, 3) if kind == "M" else 1)]
    if ctx.flag("silent_channel", 0.15) and name not in SILENCE_UNDEFINED:
        for x in xs:
            x[:, -1] = 0
    s = make(kind, xs, fs)
    f = o.make(ctx, s)
    run = lambda z, sel: [np.asarray(a) for a in o.out(ops.silent(f, z, sel))]
    full = run(s, np.arange(c))
    ctx.event("operations", 1)
    for a in full:
        ctx.ok("channels", a.shape[-1] == c, f"{a.shape}, {c} channels")
    level = [np.max(np.abs(a), axis=tuple(range(a.ndim - 1)), initial=0, where=np.isfinite(a)) if a.size else np.zeros(c) for a in full]

    def same(key, got, sel):
        ctx.equal(key + "_outputs", len(got), len(full))
        for g, a, l in zip(got, full, level):
            a = a[..., sel]
            if g.shape != a.shape:
                ctx.fail(key + "_shape", f"{g.shape} instead of {a.shape}")
                continue
            # The tolerance follows each channel's own level: a leak of a loud
            # channel into a quiet one is seen
            for k, q in enumerate(sel):
                ctx.close(key, g[..., k], a[..., k], o.tol, scale=max(l[q], 1e-12))

    i = ctx.int("alone", 0, c - 1)
    same("alone", run(make(kind, [x[:, [i]] for x in xs], fs), np.array([i])), [i])
    p = ctx.rng.permutation(c)
    same("permuted", run(make(kind, [x[:, p] for x in xs], fs), p), p)
    # Something else in the other channels
    others = [x.copy() for x in xs]
    for x in others:
        z = ir(ctx, n, c, fs) if kind == "R" else None
        for k in range(c):
            if k != i and kind == "R":
                x[:, k] = z[:, k] * ctx.rng.uniform(2, 50)
            elif k != i:
                x[:, k] = np.roll(x[::-1, k], int(ctx.rng.integers(n))) * ctx.rng.uniform(2, 50) + ctx.rng.normal(size=n) * 0.1
    got = run(make(kind, others, fs), np.arange(c))
    for g, a, l in zip(got, full, level):
        if g.shape != a.shape:
            ctx.fail("others_shape", f"{g.shape} instead of {a.shape}")
        else:
            ctx.close("others", g[..., i], a[..., i], o.tol, scale=max(l[i], 1e-12))


# A silent response has no decay, start or latency; log spectra of zeros
ROOM = {"reverb_time", "descriptors"}
SILENCE_UNDEFINED = {"reverb_time", "descriptors", "ir_latency", "ir_start", "cepstrum"}


def compare(ctx, key, run, c, tol, absolute=0.0):
    """run(sel) -> list of arrays with channels last."""
    run = functools.partial(ops.silent, run)
    full = [np.asarray(a) for a in run(np.arange(c))]
    i = ctx.int("alone", 0, c - 1)
    p = ctx.rng.permutation(c)
    for what, sel in (("alone", np.array([i])), ("permuted", p)):
        got = [np.asarray(a) for a in run(sel)]
        ctx.equal(f"{key}_{what}_shapes", [g.shape for g in got], [a[..., sel].shape for a in full])
        for g, a in zip(got, full):
            for k, q in enumerate(sel):
                ctx.close(f"{key}_{what}", g[..., k], a[..., q], tol, absolute)


def spectra(ctx):
    """Methods of spectra."""
    fs = 48000
    c, n = ctx.int("ch", 2, 5), ctx.int("bins", 40, 400)
    f = np.linspace(0, fs / 2, n) if ctx.flag("linear") else np.geomspace(10, fs / 2, n)
    cx = ctx.flag("complex")
    d = np.abs(np.cumsum(ctx.rng.normal(size=(n, c)), 0)) + 0.5
    if cx:
        d = d * np.exp(1j * np.cumsum(ctx.rng.normal(size=(n, c)) * 0.3, 0))
    d = d * 10 ** ctx.rng.uniform(-3, 1, c)
    sp = lambda sel: dsp.Spectrum(f.copy(), d[:, sel])
    what = ctx.pick("method", ["resample", "interpolate", "normalize", "gain", "warp", "smooth", "energy", "trim", "linear_phase", "min_phase", "to_signal"])
    lo, hi = ctx.uniform("lo", 50, 3000), ctx.uniform("hi", 5000, 20000)
    g = ctx.rng.uniform(-20, 20, c)
    new = np.sort(ctx.rng.uniform(100, 20000, 30))
    setup = (ctx.pick("domain", list(dsp.InterpolationDomain)), ctx.pick("scheme", list(dsp.InterpolationScheme)), dsp.InterpolationEdgeHandling.Extend)
    if not cx and setup[0].is_complex():
        setup = (dsp.InterpolationDomain.Power,) + setup[1:]
    width, wf = ctx.pick("width", [1.0, 3.0, 12.0]), ctx.uniform("warp", -0.5, 0.5)

    def run(sel):
        s = sp(sel)
        if what in ("resample", "interpolate", "warp"):
            s.set_interpolator_parameters(*setup)
        if what == "resample":
            s.resample(new)
        elif what == "interpolate":
            return [s.get_interpolated_spectrum(new, dsp.SpectrumType.Complex if cx else dsp.SpectrumType.Magnitude)]
        elif what == "normalize":
            s.normalize(1000.0)
        elif what == "gain":
            s.apply_gain(g[sel])
        elif what == "warp":
            s.warp(wf, fs)
        elif what == "smooth":
            s.apply_octave_smoothing(width)
        elif what == "energy":
            return [s.get_energy(lo, hi)]
        elif what == "trim":
            s.trim(lo, hi)
        elif what == "linear_phase":
            return [dsp.transfer_functions.lin_phase_from_mag(s, fs, 2.0, False).time_data]
        elif what == "min_phase":
            return [dsp.transfer_functions.min_phase_from_mag(s, fs, 512).time_data]
        elif cx and len(np.unique(np.round(np.diff(f), 6))) == 1:
            y = s.to_signal(fs)  # (has the amplitude constraint by default)
            return [y.time_data / y.amplitude_scale_factor]
        return [s.spectral_data]

    compare(ctx, what, run, c, 1e-8)


def pairs(ctx):
    """Functions of two signals and cross-spectral matrices."""
    fs = ctx.pick("fs", [16000, 48000])
    c, n = ctx.int("ch", 2, 4), ctx.int("n", 3000, 6000)
    x = data(ctx, "S", n, c, fs) + 1e-3 * ctx.rng.normal(size=(n, c))
    y = np.array([np.roll(x[:, k], int(ctx.rng.integers(-40, 40))) for k in range(c)]).T * ctx.rng.uniform(0.3, 2, c)
    y = y + 1e-3 * ctx.rng.normal(size=y.shape)
    S = lambda a, sel: dsp.Signal(None, a[:, sel].copy(), fs)
    what = ctx.pick("function", ["log_spectral", "itakura_saito", "snr", "si_sdr", "fw_snr_seg", "latency", "latency_sub", "difference", "csm"])
    par = gen.random_spectrum_params(ctx, n)
    norm = ctx.flag("normalize")
    F = {
        "log_spectral": lambda a, b: [dsp.distances.log_spectral(a, b, f_range_hz=[100, 6000], energy_normalization=norm)],
        "itakura_saito": lambda a, b: [dsp.distances.itakura_saito(a, b, f_range_hz=[100, 6000], energy_normalization=norm)],
        "snr": lambda a, b: [dsp.distances.snr(a, b)],
        "si_sdr": lambda a, b: [dsp.distances.si_sdr(a, b)],
        "fw_snr_seg": lambda a, b: [dsp.distances.fw_snr_seg(a, b, [100, 6000])],
        "latency": lambda a, b: list(dsp.latency(a, b, 0)),
        "latency_sub": lambda a, b: list(dsp.latency(a, b, 1)),
        "difference": lambda a, b: [dsp.spectral_difference(a.set_spectrum_parameters(**par), b.set_spectrum_parameters(**par), 3.0 if norm else 0.0, norm).spectral_data],
    }
    if what == "csm":
        s = S(x, slice(None)).set_spectrum_parameters(**par)
        full = ops.silent(s.get_csm)[1]
        sel = ctx.rng.permutation(c)[: ctx.int("taken", 2, c)]
        got = ops.silent(S(x, sel).set_spectrum_parameters(**par).get_csm)[1]
        # Amplitude scalings: the square root of a negative value has two
        # signs, one on each side of the diagonal
        e = 2 if par["scaling"].is_amplitude_scaling() else 1
        for i, a in enumerate(sel):
            for j, b in enumerate(sel):
                ctx.close("csm", got[:, i, j] ** e, full[:, a, b] ** e, 1e-9)
        return
    compare(ctx, what, lambda sel: F[what](S(x, sel), S(y, sel)), c, 1e-7, 1e-9)


def streams(ctx):
    """Filters with a state, block by block."""
    fs = ctx.pick("fs", [16000, 48000])
    c = ctx.int("ch", 2, 5)
    lens = [ctx.int("block", c + 1, 80) for _ in range(ctx.int("blocks", 2, 6))]
    x = [ctx.rng.normal(size=(n, c)) * 10 ** ctx.rng.uniform(-2, 1, c) for n in lens]
    kind = ctx.pick("filter", ["iir", "biquad", "fir", "bank", "sections"])

    def make():
        if kind == "bank":
            return bank
        return {"iir": lambda: dsp.Filter.iir_filter(4, 0.1 * fs, dsp.FilterPassType.Lowpass, sampling_rate_hz=fs),
                "biquad": lambda: dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 0.1 * fs, 5.0, 1.2, fs),
                "fir": lambda: dsp.Filter.fir_filter(24, 0.2 * fs, dsp.FilterPassType.Lowpass, sampling_rate_hz=fs),
                "sections": lambda: dsp.Filter.from_sos(dsp.Filter.iir_filter(5, 0.15 * fs, dsp.FilterPassType.Highpass, sampling_rate_hz=fs).get_coefficients(dsp.FilterCoefficientsType.Sos), fs)}[kind]()

    bank = None
    mode = ctx.pick("mode", list(dsp.FilterBankMode))

    def run(sel):
        f = ops.a_bank(None, fs) if kind == "bank" else make()
        f.initialize_zi(len(sel)) if kind != "bank" else None
        outs = []
        for b in x:
            s = dsp.Signal(None, b[:, sel].copy(), fs)
            if kind == "bank":
                y = f.filter_signal(s, mode, activate_zi=True)
            else:
                y = f.filter_signal(s, activate_zi=True)
            outs.append(ops.arrays(y))
        return [np.concatenate(z) for z in zip(*outs)]

    compare(ctx, kind, run, c, 1e-9)


FAMILIES = [
    Family("spectra", spectra, 250, 2000),
    Family("pairs", pairs, 150, 1000),
    Family("streams", streams, 150, 1000),
] + [
    Family(f"{k}_{n}", functools.partial(case, kind=k, name=n), 10, 150)
    for k in "SRM"
    for n in ops.pool(k, channels=True)
]
