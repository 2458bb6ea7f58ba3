"""P05: amplitude constraint keeps data in range and reversible."""

import functools

import numpy as np
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen, ops

PROPERTY = "P05"
EPS = 1 + 1e-12


def peak(x):
    return max(np.max(np.abs(np.real(x)), initial=0), np.max(np.abs(np.imag(x)), initial=0))


def within(ctx, s, key="range"):
    for b in s.bands if isinstance(s, dsp.MultiBandSignal) else [s]:
        if b.constrain_amplitude:
            ctx.ok(key, peak(gen.full(b)) <= EPS, f"peak {peak(gen.full(b))}")


def content(ctx, n, c):
    """Data around full scale: below, exactly at and above."""
    kind = ctx.pick("level", ["below", "exact", "slightly", "above", "far", "one_channel", "zero"])
    x = ctx.rng.normal(size=(n, c))
    if ctx.flag("complex"):
        x = x + 1j * ctx.rng.normal(size=(n, c)) * ctx.pick("imag", [0.1, 1, 10])
    p = peak(x)
    if kind == "below":
        x = x / p * ctx.uniform("peak", 0.01, 0.999)
    elif kind == "exact":
        x = x / p
        x = x / peak(x)
    elif kind == "slightly":
        x = x / p * (1 + ctx.logu("over", 1e-9, 1e-3))
    elif kind == "above":
        x = x / p * ctx.uniform("peak", 1.01, 5)
    elif kind == "far":
        x = x * ctx.logu("far", 10, 1e12)
    elif kind == "one_channel":
        x = x / p * 0.5
        x[int(ctx.rng.integers(n)), int(ctx.rng.integers(c))] = ctx.pick("spike", [-7.0, 3.0])
    else:
        x = x * 0
    if ctx.flag("integers", 0.1) and not np.iscomplexobj(x) and kind not in ("far",):
        x = np.round(x * 3).astype(int)
    return x


def stored(ctx, s, x, constrained, key):
    """s has just been given x."""
    y = gen.full(s)
    ctx.equal(key + "_shape", y.shape, x.shape)
    if not constrained or peak(x) <= 1:
        ctx.equal(key + "_untouched", y, x)
        ctx.equal(key + "_factor", float(s.amplitude_scale_factor), 1.0)
    else:
        f = s.amplitude_scale_factor
        ctx.close(key + "_factor", f, 1 / peak(x), 1e-12)
        ctx.close(key + "_scaled", y, x * f, 1e-12)
        ctx.close(key + "_recovered", y / f, x, 1e-12)
        ctx.close(key + "_full_scale", peak(y), 1.0, 1e-12)
    ctx.ok(key + "_real", s.is_complex_signal == np.iscomplexobj(x))
    within(ctx, s)


def assigning(ctx):
    """All ways of giving data to a signal, and histories of them."""
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    fs = 48000
    n, c = ctx.int("n", 8, 200), ctx.int("ch", 1, 4)
    x = content(ctx, n, c)
    con = ctx.flag("constrain")
    how = ctx.pick("how", ["constructor", "from_time_data", "setter"])
    form = ctx.pick("form", ["array", "transposed", "list", "flat"])
    given = x
    if form == "transposed":
        given = x.T
    elif form == "list":
        given = x.tolist()
    elif form == "flat" and c == 1:
        given = x[:, 0]
    keep = np.array(given)
    if how == "constructor":
        s = ops.silent(lambda: cls(None, given, fs, constrain_amplitude=con))
    elif how == "from_time_data":
        s = ops.silent(lambda: cls.from_time_data(given, fs, con))
    else:
        s = ops.silent(lambda: cls(None, np.zeros((10, 1)), fs, constrain_amplitude=con))
        s.set_spectrum_parameters(method=dsp.SpectrumMethod.FFT)
        s.get_spectrum()
        ops.silent(lambda: setattr(s, "time_data", given))
    ctx.equal("setting", s.constrain_amplitude, con)
    ctx.ok("given_kept", np.array_equal(keep, np.array(given)))
    stored(ctx, s, np.asarray(x), con, how)
    # History: the model knows what is stored and which rule holds
    for _ in range(ctx.int("steps", 1, 6)):
        step = ctx.pick("step", ["set", "add", "toggle", "imaginary", "drop_imaginary", "copy", "remove", "swap", "gain", "append"])
        before = gen.full(s).copy()
        f0 = s.amplitude_scale_factor
        if step == "set":
            x = content(ctx, ctx.int("n2", 8, 200), ctx.int("ch2", 1, 4))
            ops.silent(lambda: setattr(s, "time_data", x.copy()))
            stored(ctx, s, x, con, "set")
        elif step == "add":
            k = content(ctx, len(s), 1)
            ops.silent(lambda: s.add_channel(None, k.copy(), fs))
            x = np.hstack([before, k]) if np.iscomplexobj(before) or np.iscomplexobj(k) else np.hstack([before, k])
            if np.iscomplexobj(x) and not s.is_complex_signal:
                ctx.fail("add_complex", "the imaginary part is lost")
            else:
                stored(ctx, s, x, con, "add")
        elif step == "toggle":
            con = not con
            ops.silent(lambda: setattr(s, "constrain_amplitude", con))
            if con:
                stored(ctx, s, before, True, "enable")
            else:
                ctx.equal("disable_keeps", gen.full(s), before)
                ctx.equal("disable_factor", s.amplitude_scale_factor, f0)
        elif step == "imaginary":
            im = ctx.rng.normal(size=before.shape) * ctx.pick("imag2", [0.01, 0.3, 5])
            ops.silent(lambda: setattr(s, "time_data_imaginary", im.copy()))
            z = before.real + 1j * im
            if not con or peak(z) <= 1:
                ctx.equal("imaginary_untouched", gen.full(s), z)
            else:
                ctx.close("imaginary_scaled", gen.full(s), z / peak(z), 1e-12)
        elif step == "drop_imaginary":
            s.time_data_imaginary = None
            ctx.equal("dropped", gen.full(s), before.real)
        elif step == "copy":
            t = s.copy()
            ctx.equal("copy", gen.full(t), before)
            ctx.equal("copy_factor", t.amplitude_scale_factor, f0)
            ctx.equal("copy_setting", t.constrain_amplitude, con)
            s = t
        elif step == "remove" and s.number_of_channels > 1:
            s.remove_channel(0)
            ctx.equal("removed", gen.full(s), before[:, 1:])
        elif step == "swap":
            p = ctx.rng.permutation(s.number_of_channels)
            s.swap_channels(p)
            ctx.equal("swapped", gen.full(s), before[:, p])
        elif step == "gain":
            g = ctx.uniform("gain", -20, 30)
            s = ops.silent(lambda: dsp.apply_gain(s, g))
            z = before * 10 ** (g / 20)
            m = peak(z) if con and peak(z) > 1 else 1.0
            ctx.close("gain", gen.full(s), z / m, 1e-9)
            ctx.close("gain_factor", s.amplitude_scale_factor, 1 / m, 1e-9)
        elif step == "append":
            z = content(ctx, len(s), 1)
            other = ops.silent(lambda: cls(None, z, fs, constrain_amplitude=con))
            s = ops.silent(lambda: dsp.append_signals([s, other]))
            ctx.close("append", gen.full(s), np.hstack([before, gen.full(other)]), 1e-12)
        ctx.equal("setting_kept", s.constrain_amplitude, con, step)
        ctx.ok("factor_range", 0 < s.amplitude_scale_factor <= 1.0, f"{s.amplitude_scale_factor}")
        within(ctx, s, "history_range")


def derived(ctx, kind, name):
    """Operations keep the setting; a constrained result is the unconstrained
    one times the reported factor."""
    o = ops.OPS[name]
    fs = ctx.pick("fs", [16000, 48000])
    n, c = ctx.int("n", 1600, 3000), ctx.int("ch", 2 if name == "average_irs" else 1, 4)
    cx = o.complex_ok and ctx.flag("complex", 0.4)
    level = ctx.pick("peak", [0.01, 0.3, 0.99, 1.0])

    def one():
        if kind == "R":
            x = np.zeros((n, c))
            t = np.arange(n)
            for k in range(c):
                d = int(ctx.rng.integers(5, 60))
                h = ctx.rng.normal(size=n - d) * np.exp(-t[: n - d] / (n * ctx.rng.uniform(0.05, 0.12)))
                h[0] = 3
                x[d:, k] = h * ctx.rng.uniform(0.1, 1.5)
        else:
            x = gen.content(ctx, n, c, fs, ("noise", "mixture", "sweep"))
        x = x + (1j * 0.3 * ctx.rng.normal(size=x.shape) if cx else 0)
        x = x / peak(x)
        return x / max(peak(x), 1) * (1.0 if name == 'trim_level' else level)

    xs = [one() for _ in range(ctx.int("bands", 1, 3) if kind == "M" else 1)]
    if name == "trim_level":
        level = 1.0  # (absolute threshold)
    cls = dsp.ImpulseResponse if kind == "R" or kind == "M" and ctx.flag("response_bands") else dsp.Signal

    def make(con):
        b = [cls(None, x.copy(), fs, constrain_amplitude=con) for x in xs]
        return dsp.MultiBandSignal(b) if kind == "M" else b[0]

    free, bound = make(False), make(True)
    f = o.make(ctx, free)
    sel = np.arange(c)
    state = ctx.rng.bit_generator.state
    y0 = ops.silent(f, free, sel)
    y1 = ops.silent(f, bound, sel)
    within(ctx, bound, "input_range")
    parts0, parts1 = signals(y0), signals(y1)
    ctx.equal("count", len(parts1), len(parts0))
    for a, b in zip(parts0, parts1):
        ctx.equal("free_setting", a.constrain_amplitude, False)
        ctx.equal("free_factor", float(a.amplitude_scale_factor), 1.0)
        if name not in OWN_SETTING:
            ctx.equal("bound_setting", b.constrain_amplitude, True)
        within(ctx, b, "result_range")
        u, v = gen.full(a), gen.full(b)
        if u.shape != v.shape:
            ctx.fail("shape", f"{v.shape} instead of {u.shape}")
            continue
        fac = b.amplitude_scale_factor
        if b.constrain_amplitude and fac < 1.0:
            ctx.event("scaled_results", 1)
            if name in SINGLE_STEP:
                ctx.close("factor", fac, 1 / peak(u), 1e-8)
        if name in SINGLE_STEP or peak(u) <= 1:
            ctx.close("recovered", v / (fac if b.constrain_amplitude else 1.0), u, max(o.tol, 1e-9))
        else:
            # Several steps inside: equal up to one common factor
            k = np.vdot(v, u) / np.vdot(v, v)
            ctx.close("proportional", v * k, u, 1e-6)


def signals(y):
    if isinstance(y, dsp.MultiBandSignal):
        return list(y.bands)
    if isinstance(y, dsp.Signal):
        return [y]
    if isinstance(y, (tuple, list)):
        return [s for z in y for s in signals(z)]
    return []


# (an impulse response computed from two signals: no constraint by design)
OWN_SETTING = {"deconvolve"}
SINGLE_STEP = {n for n, o in ops.OPS.items()} - {"bank", "crossover", "append", "collapse"}
NOT_SIGNALS = {"envelope", "rms", "crest", "true_peak", "cepstrum", "dft", "cwt", "vqt", "stft", "spectrum", "spectrum_object", "via_filterbank", "lpc", "transfer_function", "complex_smoothing", "fdw", "group_delay", "minimum_phase", "minimum_group_delay", "excess_group_delay", "ir_latency", "ir_to_filter", "reverb_time", "descriptors", "ir_start"}

MORE = 5  # times the number of cases below in the quick tier
FAMILIES = [Family("assigning", assigning, 1500, 20000)] + [
    Family(f"{k}_{n}", functools.partial(derived, kind=k, name=n), 8, 120)
    for k in "SRM"
    for n in ops.pool(k)
    if n not in NOT_SIGNALS
]
