"""P16: sample-rate conversion of signals and filters."""

from math import gcd

import numpy as np
import scipy.signal as sg
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.checks.p17 import smooth
from rtm.checks.p18 import settings

PROPERTY = "P16"
RATES = [8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 96000]


def no_fs(s):
    d = settings(s)
    return d[:1] + d[2:]


def resample(ctx):
    f0 = ctx.pick("fs", RATES)
    f1 = ctx.pick("new", [f for f in RATES if f != f0])
    ratio = f1 / f0
    n = ctx.int("n", 400, 3000)
    c = ctx.int("ch", 1, 4)
    fn = smooth(n, c, f0, ctx, 0.32 * min(1, ratio))
    x = fn(np.arange(n))
    cx = ctx.flag("complex", 0.3)
    if cx:
        fi = smooth(n, c, f0, ctx, 0.32 * min(1, ratio))
        x = x + 1j * fi(np.arange(n))
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    s = cls(None, x.copy(), f0, constrain_amplitude=ctx.flag("constrain"))
    s.set_spectrum_parameters(**gen.random_spectrum_params(ctx, n, None if cls is dsp.Signal else gen.SM.FFT))
    resc = ctx.flag("rescaling", 0.3)
    o = dsp.resample(s, f1, resc)
    g = gcd(f0, f1)
    u, d = f1 // g, f0 // g
    m = -(-n * u // d)
    ctx.equal("resample_length", o.time_data.shape, (m, c))
    ctx.equal("resample_rate", o.sampling_rate_hz, f1)
    ctx.equal("resample_type", type(o), cls)
    ctx.equal("resample_settings", no_fs(o), no_fs(s))
    t = np.arange(m) / ratio
    e = fn(t) + (1j * fi(t) if cx else 0)
    e = e / ratio if resc else e
    sc = max(np.abs(e).max(), 1e-3)
    y = gen.full(o) / o.amplitude_scale_factor if o.amplitude_scale_factor != s.amplitude_scale_factor else gen.full(o)
    if np.abs(e).max() > 0.99:  # scaled by the constraint
        ctx.need(s.constrain_amplitude is False)
    ctx.close("resample_values", y, e, 1e-2, scale=sc)
    # Channels on their own
    k = ctx.int("k", 0, c - 1)
    one = dsp.resample(cls(None, x[:, [k]].copy(), f0, constrain_amplitude=False), f1, resc)
    if np.abs(e).max() < 0.99:
        ctx.close("resample_channel", gen.full(o)[:, [k]], gen.full(one), 1e-12, 1e-15)
    # There and back
    back = dsp.resample(o, f0, resc)
    if np.abs(e).max() < 0.99 and np.abs(x).max() < 0.99:
        q = min(n, len(back))
        ctx.ok("round_trip_length", abs(len(back) - n) <= max(1, d / u + 1), f"{len(back)} {n}")
        ctx.close("round_trip", gen.full(back)[:q], x[:q], 2e-2, scale=np.abs(x).max())
    # Same rate
    same = dsp.resample(s, f0, resc)
    ctx.equal("same_rate", gen.full(same), gen.full(s))
    same.time_data = same.time_data * 0
    ctx.close("same_rate_copy", gen.full(s), x, 1e-14)


def alias(ctx):
    f0 = ctx.pick("fs", RATES)
    f1 = ctx.pick("new", [f for f in RATES if f != f0])
    n = 4000
    lo = min(f0, f1)
    t = np.arange(n) / f0
    if f1 < f0:  # content above the new Nyquist frequency vanishes
        hi = f0 / 2
        if lo * 0.62 > hi * 0.98:
            return ctx.event("no_room")
        f = ctx.uniform("f", lo * 0.62, hi * 0.98)
        o = dsp.resample(dsp.Signal(None, (np.sin(2 * np.pi * f * t) * sg.windows.hann(n))[:, None], f0), f1)
        ctx.ok("no_aliasing", np.abs(o.time_data).max() < 0.02, f"{np.abs(o.time_data).max()}")
    else:  # no images above the old Nyquist frequency
        f = ctx.uniform("f", lo * 0.02, lo * 0.35)
        o = dsp.resample(dsp.Signal(None, (np.sin(2 * np.pi * f * t) * sg.windows.hann(n))[:, None], f0), f1)
        sp = np.abs(np.fft.rfft(o.time_data[:, 0]))
        fr = np.fft.rfftfreq(len(o), 1 / f1)
        ctx.ok("no_image", sp[fr > lo * 0.62].max(initial=0) < 0.02 * sp.max())
        ctx.ok("tone_frequency", abs(fr[sp.argmax()] - f) < 1.5 * f0 / n, f"{fr[sp.argmax()]} {f}")


def filt(ctx):
    f0 = ctx.pick("fs", RATES)
    f1 = ctx.pick("new", RATES)
    if ctx.flag("edge", 0.25):
        b, a = [
            ([1.0, 1.0], [1.0]), ([0.5, 0.0, -0.5], [1.0]), ([1.0, 2, 1.0], [1, -0.5]), ([1.0], [1, -0.5]),
            ([1.0, 1], [1, 0.2, 0.3]), ([1.0, -0.3], [1.0, -0.9, 0.3, 0.01]), ([0.2, 0.7, 0.2, 0.1], [1, 0.5]),
        ][ctx.int("which", 0, 6)]
        f = dsp.Filter.from_ba(np.array(b, float), np.array(a, float), f0)
    else:
        f = gen.random_filter(ctx, f0, ("biquad", "iir", "custom_iir"))
    w = np.linspace(0.005, 0.9, 60) * np.pi
    H0 = f.get_transfer_function(w / 2 / np.pi * f0)
    o = dsp.resample_filter(f, f1)
    w1 = 2 * np.arctan(f0 * np.tan(w / 2) / f1)
    ctx.equal("filter_rate", o.sampling_rate_hz, f1)
    H1 = o.get_transfer_function(w1 / 2 / np.pi * f1)
    ctx.close("filter_response", H1, H0, 1e-5, scale=np.abs(H0).max())
    ctx.ok("filter_stable", np.all(np.abs(o.get_coefficients(dsp.FilterCoefficientsType.Zpk)[1]) < 1))
    ctx.close("filter_original", f.get_transfer_function(w / 2 / np.pi * f0), H0, 1e-14)


def aligned(ctx, key, y, full, half, D, gain=1.0):
    """y[k] = gain * full[o + D k] for one offset o within one period of the
    filter's group delay; y has the whole duration."""
    full = np.concatenate([np.zeros((D, full.shape[1])), full, np.zeros((2 * D + D * len(y), full.shape[1]))])
    best = None
    for o in range(max(half - D + 1, 0), half + D):
        e = gain * full[D + o :: D][: len(y)]
        err = np.abs(e - y).max() / (np.abs(e).max() + 1e-12)
        if best is None or err < best[0]:
            best = (err, o)
    ctx.ok(key, best[0] < 1e-9, f"relative error {best[0]:.3g} with offset {best[1]} (half {half}, factor {D})")
    return best[1]


def down(ctx):
    D = ctx.int("D", 2, 6)
    f1 = ctx.pick("new", [4000, 8000, 11025])
    f0 = f1 * D
    n = ctx.int("n", 60, 1500)
    c = ctx.int("ch", 1, 3)
    x = ctx.normal(n, c) * 0.04
    if ctx.flag("complex", 0.3):
        x = x + 0.04j * ctx.normal(n, c)
    s = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])(None, x.copy(), f0, constrain_amplitude=ctx.flag("constrain"))
    before = settings(s)
    offs = set()
    if ctx.flag("fir"):
        b = ctx.normal(ctx.int("taps", 1, 50)) * 0.2
        f = dsp.Filter.from_ba(b, np.ones(1), f0)
        half = (len(b) - 1) // 2
        o = f.filter_and_resample_signal(s, f1)
        ctx.equal("down_length", o.time_data.shape, (-(-n // D), c))
        full = sg.convolve(x, b[:, None])
        ctx.need(np.abs(full).max() < 0.99)
        o1 = aligned(ctx, "down_polyphase", gen.full(o), full, half, D)
        m = n - ctx.int("cut", 1, D)
        o2 = f.filter_and_resample_signal(dsp.Signal(None, x[:m].copy(), f0), f1)
        full = sg.convolve(x[:m], b[:, None])
        q = aligned(ctx, "down_polyphase_other_length", gen.full(o2), full, half, D)
        ctx.equal("down_offset_independent_of_length", q, o1)
    else:
        f = gen.random_filter(ctx, f0, ("biquad", "iir", "custom_iir"))
        ctx.need(not f.is_fir)
        b, a = f.get_coefficients(dsp.FilterCoefficientsType.Ba)
        o = f.filter_and_resample_signal(s, f1)
        e = sg.lfilter(b, a, x, axis=0)[::D]
        ctx.need(np.abs(e).max() < 0.99)
        ctx.close("down_iir", gen.full(o), e, 1e-6)
    ctx.equal("down_rate", o.sampling_rate_hz, f1)
    ctx.equal("down_settings", no_fs(o), no_fs(s))
    ctx.equal("down_input", settings(s), before)
    ctx.equal("down_input_samples", gen.full(s), x)
    bad = dsp.Filter.from_ba(np.ones(3), np.ones(1), f0 + 1)
    ctx.raises("down_wrong_rate", lambda: bad.filter_and_resample_signal(s, f1))
    ctx.raises("down_and_up", lambda: f.filter_and_resample_signal(s, f1 + 1))


def up(ctx):
    U = ctx.int("U", 2, 6)
    f0 = ctx.pick("fs", [4000, 8000, 11025])
    f1 = f0 * U
    n = ctx.int("n", 60, 800)
    c = ctx.int("ch", 1, 3)
    x = ctx.normal(n, c) * 0.05
    if ctx.flag("complex", 0.3):
        x = x + 0.05j * ctx.normal(n, c)
    s = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])(None, x.copy(), f0, constrain_amplitude=ctx.flag("constrain"))
    xu = np.zeros((n * U, c), x.dtype)
    xu[::U] = x * U
    if ctx.flag("fir"):
        b = ctx.normal(ctx.int("taps", 1, 50)) * 0.1
        f = dsp.Filter.from_ba(b, np.ones(1), f1)
        o = f.filter_and_resample_signal(s, f1)
        half = (len(b) - 1) // 2
        full = sg.convolve(xu, b[:, None])
        e = np.zeros((n * U, c), x.dtype)
        q = full[half : half + n * U]
        e[: len(q)] = q
        ctx.need(np.abs(e).max() < 0.99)
        ctx.close("up_polyphase", gen.full(o), e, 1e-9)
    else:
        f = gen.random_filter(ctx, f1, ("biquad", "iir", "custom_iir"))
        ctx.need(not f.is_fir)
        b, a = f.get_coefficients(dsp.FilterCoefficientsType.Ba)
        o = f.filter_and_resample_signal(s, f1)
        e = sg.lfilter(b, a, xu, axis=0)
        ctx.need(np.abs(e).max() < 0.99)
        ctx.close("up_iir", gen.full(o), e, 1e-6)
    ctx.equal("up_rate", o.sampling_rate_hz, f1)
    ctx.equal("up_settings", no_fs(o), no_fs(s))
    bad = dsp.Filter.from_ba(np.ones(3), np.ones(1), f0)
    ctx.raises("up_wrong_rate", lambda: bad.filter_and_resample_signal(s, f1))


MORE = 3  # times the number of cases below in the quick tier
FAMILIES = [
    Family("resample", resample, 500, 8000),
    Family("aliasing", alias, 100, 2000),
    Family("resample_filter", filt, 500, 8000),
    Family("polyphase_down", down, 800, 8000),
    Family("polyphase_up", up, 800, 8000),
]
