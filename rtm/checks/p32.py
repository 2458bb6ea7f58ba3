"""P32: audio effects."""

import contextlib
import io
import warnings

import numpy as np
import dsptoolbox as dsp
from dsptoolbox import effects as fx
from dsptoolbox.effects.effects import AudioEffect
from rtm.core import Family
from rtm.snap import snap, diff
from rtm import gen

PROPERTY = "P32"
D = fx.DistortionType


def silent(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def make(x, fs, cls=dsp.Signal):
    return cls(None, x.copy(), fs, constrain_amplitude=False)


def peaks(x):
    return np.max(np.abs(x), axis=0)


def restore(y, p):
    q = peaks(y)
    return y * np.where(q > 0, p / np.where(q > 0, q, 1), 0)


def rms(x):
    return np.sqrt(np.mean(x**2, axis=0))


def amp(db):
    return 10 ** (db / 20)


def lfo_def(kind, f, fs, n):
    """Plain waveforms, phase zero."""
    t = np.arange(n)
    ph = f / fs * t
    if kind == "harmonic":
        return np.sin(2 * np.pi * ph)
    if kind == "square":
        return np.sign(np.sin(2 * np.pi * f / fs * t))
    if kind == "sawtooth":
        return 2 * (ph % 1 - 0.5)
    return 2 / np.pi * np.arcsin(np.sin(2 * np.pi * ph))


def some_lfo(ctx, key, fs):
    kind = ctx.pick(key + "_wave", ["harmonic", "triangle", "sawtooth"])
    f = float(ctx.logu(key + "_rate", 0.3, 30))
    return fx.LFO(f, kind), lambda n: lfo_def(kind, f, fs, n)


def effect(ctx, fs, n):
    """A deterministic effect, its name and whether zero stays zero."""
    k = ctx.pick("effect", ["distortion", "distortion_mix", "compressor", "tremolo", "chorus", "delay", "adaptive", "static", "spectrum", "base"])
    if k == "distortion":
        e = fx.Distortion(ctx.uniform("level", -5, 50), ctx.uniform("post", -6, 3), ctx.pick("kind", [D.Arctan, D.HardClip, D.SoftClip, D.NoDistortion]))
    elif k == "distortion_mix":
        e = fx.Distortion()
        w = ctx.uniform("mix", 0, 100)
        e.set_advanced_parameters([D.Arctan, D.SoftClip, D.NoDistortion], [20.0, 10.0, 0.0], [w, (100 - w) / 2, (100 - w) / 2], [-30.0, -np.inf, -np.inf], -1.0)
    elif k == "compressor":
        e = fx.Compressor(ctx.uniform("thr", -40, 0), ctx.pick("attack", [0, 0.5, 5]), ctx.pick("release", [0, 5, 20]), ctx.uniform("ratio", 1, 12), ctx.flag("relative"))
        e.set_advanced_parameters(ctx.pick("knee", [0, 3.0, 10.0]), ctx.pick("pre", [None, 0.0, 2.0, -3.0]), ctx.pick("post", [None, 0.0, -2.0]), ctx.uniform("mixc", 10, 100), ctx.flag("makeup"), ctx.flag("downward", 0.8))
    elif k == "tremolo":
        e = fx.Tremolo(ctx.uniform("depth", 0.01, 1), some_lfo(ctx, "lfo", fs)[0])
        if ctx.flag("array"):
            e.set_parameters(modulator=ctx.rng.normal(size=ctx.int("modulator", 1, 2 * n)))
    elif k == "chorus":
        v = ctx.int("voices", 1, 4)
        e = fx.Chorus(ctx.rng.uniform(0.1, 4, v), ctx.rng.uniform(5, 30, v), [some_lfo(ctx, f"lfo{i}", fs)[0] for i in range(v)], ctx.uniform("mix", 1, 100))
    elif k == "delay":
        e = fx.DigitalDelay(ctx.uniform("delay", 1, 30), ctx.uniform("feedback", 0.05, 0.95))
        e.set_advanced_parameters(ctx.pick("saturation", [None, "arctan", "digital"]))
    elif k == "base":
        e = AudioEffect("nothing")
    else:
        e = fx.SpectralSubtractor(k == "adaptive", -30, 0.01)
        e.set_advanced_parameters(ctx.pick("overlap", [50, 75]), ctx.pick("win", [dsp.Window.Hann, dsp.Window.Hamming]), 0.9, ctx.uniform("factor", 0.3, 4), ctx.pick("exponent", [1, 2, 1.5]))
        if k == "spectrum":
            e.set_parameters(spectrum_to_subtract=ctx.rng.uniform(0, 1, 33))
    return k, e


def common(ctx):
    """Shape, type, determinism, untouched input, silence and channels."""
    fs = ctx.pick("fs", [8000, 16000, 44100])
    n, c = ctx.int("n", 300, 1500), ctx.int("ch", 1, 4)
    x = gen.content(ctx, n, c, fs)
    x = x / (np.max(np.abs(x)) + 1e-300) * ctx.uniform("peak", 0.05, 0.9)
    x = x + ctx.rng.normal(size=x.shape) * 1e-6
    k, e = effect(ctx, fs, n)
    mute = ctx.flag("silent_channel", 0.4) and k != "static"
    if mute:
        z = int(ctx.rng.integers(c))
        x[:, z] = 0
    if k == "static":
        # a piece of noise and a piece of signal
        x = x / peaks(x) * 0.5
        x[: n // 2] = ctx.rng.normal(size=(n // 2, c)) * 1e-3
    cls = ctx.pick("class", [dsp.Signal, dsp.ImpulseResponse])
    s = make(x, fs, cls)
    before = snap(s)
    y = silent(lambda: e.apply(s))
    ctx.ok("input_kept", diff(before, snap(s)) is None, str(diff(before, snap(s))))
    ctx.ok("type", type(y) is cls and y.sampling_rate_hz == fs)
    ctx.equal("channels", y.number_of_channels, c)
    m = y.length_samples
    if k == "delay":
        ctx.ok("longer", m > n, f"{m}")
    else:
        ctx.equal("length", m, n)
    v = y.time_data
    ctx.ok("finite", bool(np.all(np.isfinite(v))), k)
    if mute:
        ctx.ok("silence", bool(np.all(v[:, z] == 0)), k)
    y2 = silent(lambda: e.apply(s))
    ctx.ok("repeatable", np.array_equal(y2.time_data, v), k)
    if k == "base":
        ctx.equal("nothing", v, x)
        return
    ctx.ok("independent", not np.shares_memory(y.time_data, s.time_data))
    # each channel alone
    j = int(ctx.rng.integers(c))
    alone = silent(lambda: e.apply(make(x[:, j], fs, cls)))
    ctx.close("channel_alone", alone.time_data[:, 0], v[:, j], 1e-9, scale=np.max(np.abs(x)))
    # other objects in between do not matter
    other = make(ctx.rng.normal(size=(n + 7, c + 1)) * 0.1, fs)
    if k not in ("static",):
        silent(lambda: e.apply(other))
    y3 = silent(lambda: e.apply(s))
    ctx.ok("no_memory", np.array_equal(y3.time_data, v), k)
    if ctx.flag("bands"):
        mb = dsp.MultiBandSignal([s, make(np.roll(x, 3, axis=0), fs, cls)])
        bm = snap(mb)
        ym = silent(lambda: e.apply(mb))
        ctx.ok("bands_input_kept", diff(bm, snap(mb)) is None)
        ctx.ok("bands_type", type(ym) is dsp.MultiBandSignal and ym.number_of_bands == 2)
        ctx.equal("band", ym.bands[0].time_data, v)
    ctx.event("effects", 1)


def distortion(ctx):
    """Definition of the non-linearities, their mix and level."""
    fs = ctx.pick("fs", gen.FS)
    n, c = ctx.int("n", 4, 400), ctx.int("ch", 1, 4)
    x = ctx.rng.normal(size=(n, c)) * ctx.logu("scale", 1e-3, 0.1)
    p = peaks(x)
    u = x / p
    k = ctx.int("number", 1, 4)
    kinds = [ctx.pick(f"k{i}", [D.Arctan, D.HardClip, D.SoftClip, D.NoDistortion]) for i in range(k)]
    lev = [float(ctx.uniform(f"lev{i}", -10, 40)) for i in range(k)]
    off = [-np.inf if ctx.flag(f"no_off{i}") else float(ctx.uniform(f"off{i}", -60, -10)) for i in range(k)]
    if k > 1:
        w = ctx.rng.uniform(0.05, 1, k)
        w = w / w.sum() * 100
        if ctx.flag("zero"):
            w[1:] += w[0] / (k - 1)
            w[0] = 0
            w = np.minimum(w, 100.0)
    else:
        w = np.array([ctx.pick("mix", [100.0, 0.0, 40.0, 99.0])])
    post = ctx.pick("post", [0, -3.0, 2.0])
    e = fx.Distortion()
    if k == 1:
        e.set_advanced_parameters(kinds[0], lev[0], w[0], off[0], post)
    else:
        e.set_advanced_parameters(kinds, np.array(lev), w, np.array(off), post)
    y = silent(lambda: e.apply(make(x, fs))).time_data

    def one(kind, l, o):
        g, o = amp(l), (0.0 if np.isinf(o) else amp(o))
        if kind is D.Arctan:
            return np.arctan(u * g + o)
        if kind is D.HardClip:
            return np.clip(u * g + o, -1, 1)
        if kind is D.SoftClip:
            q = (u * 2 / 3 + o) * g
            return np.clip(q - q**3 / 3, -2 / 3, 2 / 3)
        return u

    if k == 1:
        kinds, lev, off, w = kinds + [D.NoDistortion], lev + [0.0], off + [-np.inf], np.array([w[0], 100 - w[0]])
    total = 0
    for i in range(len(kinds)):
        if w[i]:
            total = total + restore(one(kinds[i], lev[i], off[i]), p) * w[i] / 100
    expected = restore(total, p) * amp(post)
    ctx.close("definition", y, expected, 1e-9, scale=np.max(p))
    ctx.close("peak", peaks(y), p * amp(post), 1e-9)
    if all(kinds[i] is D.NoDistortion for i in range(len(kinds)) if w[i]):
        ctx.close("clean", y, x * amp(post), 1e-12, scale=np.max(p))
    # independent of the level of the input
    g = ctx.logu("gain", 1e-3, 5)
    y2 = silent(lambda: e.apply(make(x * g, fs))).time_data
    ctx.close("scale_invariant", y2, y * g, 1e-8, scale=g * np.max(p))


def curve(l, t, r, w, down):
    """Level in dB after compression."""
    if down:
        if w > 0 and abs(l - t) <= w / 2:
            return l + (1 / r - 1) * (l - t + w / 2) ** 2 / 2 / w
        return l if l <= t else t + (l - t) / r
    if w > 0 and abs(l - t) <= w / 2:
        return l - (1 / r - 1) * (l - t - w / 2) ** 2 / 2 / w
    return l if l >= t else t + (l - t) / r


def compressor(ctx):
    """Static curve, mix, gains and make-up gain."""
    fs = ctx.pick("fs", [8000, 16000])
    att, rel = ctx.pick("attack", [0, 1, 2.0]), ctx.pick("release", [0, 1, 3.0])
    thr, ratio = float(ctx.uniform("thr", -40, -3)), ctx.pick("ratio", [1, 2, 4.5, 20, 1.3])
    knee = ctx.pick("knee", [0, 6.0, 15.0])
    down, relative = ctx.flag("down", 0.7), ctx.flag("relative")
    mix = ctx.pick("mix", [100, 50.0, 10.0])
    pre, post = ctx.pick("pre", [0, None, 4.0, -5.0]), ctx.pick("post", [0, None, 3.0, -6.0])
    makeup = ctx.flag("makeup")
    c = ctx.int("ch", 1, 3)
    e = fx.Compressor(thr, att, rel, ratio, relative)
    e.set_advanced_parameters(knee, pre, post, mix, makeup, down)
    seg = int(fs * 1e-3 * max(att, rel, 0.2) * 10) + 2
    k = ctx.int("levels", 2, 5)
    L = ctx.rng.uniform(-45, -0.1, (k, c))
    sign = np.where(ctx.rng.random((seg * k, c)) < 0.5, -1, 1)
    x = amp(np.repeat(L, seg, axis=0)) * sign
    y = silent(lambda: e.apply(make(x, fs))).time_data
    gp, gq = amp(pre or 0.0), amp(post or 0.0)
    expected = np.zeros((k, c))
    for j in range(c):
        lv = L[:, j] + 20 * np.log10(gp) - (np.max(L[:, j] + 20 * np.log10(gp)) if relative else 0)
        for i in range(k):
            g = amp(curve(lv[i], thr, ratio, knee, down) - lv[i])
            expected[i, j] = g * mix / 100 + 1 - mix / 100
    ends = np.arange(1, k + 1) * seg - 1
    got = y[ends] / x[ends] / gp / gq
    if makeup:
        ctx.close("make_up", rms(y), rms(x) * gp * gq, 1e-9)
        # relative levels only
        got = got / got[0]
        expected = expected / expected[0]
    ctx.close("static_curve", 20 * np.log10(got), 20 * np.log10(expected), 0, 1e-4)
    if ratio == 1:
        ctx.close("no_compression", y, x * gp * gq, 1e-9)
    ctx.ok("same_sign", bool(np.all(y * x > 0)))
    ctx.event("static_levels", k * c)


def ballistics(ctx):
    """Attack when the gain change starts, release when it goes back."""
    fs = ctx.pick("fs", [8000, 16000, 48000])
    att, rel = [(4.0, 40.0), (40.0, 4.0), (0, 20.0), (20.0, 0), (10.0, 10.0)][ctx.int("times", 0, 4)]
    down = ctx.flag("down")
    thr, ratio = -20.0, ctx.pick("ratio", [2.0, 4.0, 10.0])
    e = fx.Compressor(thr, att, rel, ratio, False)
    e.set_advanced_parameters(automatic_make_up_gain=False, downward_compression=down)
    lead, up = int(fs * 0.02), int(fs * 0.15)
    l0, l1 = (-30.0, -5.0) if down else (-10.0, -35.0)
    level = np.concatenate([np.full(lead, l0), np.full(up, l1), np.full(up, l0)])
    x = amp(level) * np.where(ctx.rng.random(len(level)) < 0.5, -1, 1)
    y = silent(lambda: e.apply(make(x, fs))).time_data[:, 0]
    g = y / x
    target = amp(curve(l1, thr, ratio, 0, down) - l1)
    ctx.close("before", g[:lead], np.ones(lead), 1e-9)
    ctx.close("held", g[lead + up - 1], target, 1e-3)
    ctx.close("back", g[-1], 1.0, 1e-3)
    p = (g - 1) / (target - 1)
    on, off = p[lead : lead + up], p[lead + up :]
    ctx.ok("monotonic", bool(np.all(np.diff(on) >= -1e-9) and np.all(np.diff(off) <= 1e-9)))
    for key, tr, t in (("attack", on, att), ("release", 1 - off, rel)):
        when = np.argmax(tr >= 0.9) / fs * 1e3
        lo, hi = 0.4 * t, 1.3 * t + 3e3 / fs
        ctx.ok(key, lo <= when <= hi, f"90 % after {when} ms instead of about {t} ms")


def tremolo(ctx):
    """Amplitude follows the modulator."""
    fs = ctx.pick("fs", gen.FS)
    n, c = ctx.int("n", 10, 3000), ctx.int("ch", 1, 4)
    x = ctx.rng.normal(size=(n, c)) * 0.1
    kind = ctx.pick("modulator", ["lfo", "array", "column", "short", "long", "default"])
    depth = ctx.uniform("depth", 1e-3, 1)
    if kind == "lfo":
        lfo, wave = some_lfo(ctx, "lfo", fs)
        e, m = fx.Tremolo(depth, lfo), wave(n)
    elif kind == "default":
        e, m = fx.Tremolo(depth), np.sin(2 * np.pi * np.arange(n) / fs)
    else:
        k = {"short": max(1, n // 2), "long": 2 * n}.get(kind, n)
        a = ctx.rng.normal(size=k)
        keep = a.copy()
        given = a[:, None] if kind == "column" and k > 1 else a
        e = fx.Tremolo(depth, given)
        m = np.concatenate([a, np.zeros(n)])[:n]
    y = silent(lambda: e.apply(make(x, fs))).time_data
    ctx.close("definition", y, x * np.abs(1 + depth * m)[:, None], 1e-9, scale=1)
    if kind not in ("lfo", "default"):
        ctx.equal("modulator_kept", a, keep)
    d2 = ctx.uniform("depth2", 1e-3, 1)
    e.set_parameters(depth=d2)
    y = silent(lambda: e.apply(make(x, fs))).time_data
    ctx.close("new_depth", y, x * np.abs(1 + d2 * m)[:, None], 1e-9, scale=1)
    lfo, wave = some_lfo(ctx, "lfo2", fs)
    e.set_parameters(modulator=lfo)
    y = silent(lambda: e.apply(make(x, fs))).time_data
    ctx.close("new_modulator", y, x * np.abs(1 + d2 * wave(n))[:, None], 1e-9, scale=1)


NOTES = {"quarter": 0.25, "half": 0.5, "whole": 1.0, "eighth": 1 / 8, "sixteenth": 1 / 16, "32th": 1 / 32}


def oscillator(ctx):
    """LFO waveforms and musical rhythms."""
    fs = ctx.pick("fs", gen.FS)
    kind = ctx.pick("wave", ["harmonic", "square", "sawtooth", "triangle"])
    f = ctx.pick("f", [1, 2.5, 0.3, 7.0, 30.0])
    n = ctx.int("n", 1, 3000)
    smooth = ctx.pick("smooth", [0, 0, 1, 5.0, 10, 15])
    up = ctx.flag("upper")
    l = fx.LFO(f, kind.upper() if up else kind, False, smooth)
    y = l.get_waveform(fs, n)
    ctx.ok("shape", y.shape == (n,), str(y.shape))
    ctx.ok("range", bool(np.all(np.isfinite(y)) and np.all(np.abs(y) <= 1 + 1e-9)), f"{np.min(y)} {np.max(y)}")
    if smooth == 0 or kind == "harmonic":
        e = lfo_def(kind, f, fs, n)
        t = f / fs * np.arange(n)
        far = np.abs(2 * t - np.round(2 * t)) > 1e-6 if kind in ("square", "sawtooth") else slice(None)
        ctx.close("definition", y[far], e[far], 1e-7, scale=1)
    else:
        m = 64
        k = int(np.ceil(fs / f))
        full = l.get_waveform(fs, 2 * k)
        if k > m:
            ctx.ok("peak_used", np.max(full) > (0.55 if kind == "square" else 0.9), f"{np.max(full)}")
            ctx.ok("symmetric", abs(np.max(full) + np.min(full)) < 0.2, f"{np.max(full)} {np.min(full)}")
    # a part of a waveform does not depend on the length
    ctx.close("prefix", l.get_waveform(fs, 2 * n)[:n], y, 1e-9, scale=1)
    ctx.equal("one_period", len(l.get_waveform(fs)), int(fs / f))
    # random phase
    r = fx.LFO(f, kind, True, 0).get_waveform(fs, n)
    ctx.ok("random_range", bool(np.all(np.abs(r) <= 1 + 1e-9)))
    # rhythm
    note = ctx.pick("note", list(NOTES))
    mod = ctx.pick("mod", ["", " 3", " dotted"])
    bpm = ctx.pick("bpm", [60, 120, 90.0, 137.5, 33])
    dur = 60 / bpm * 4 * NOTES[note] * {"": 1, " 3": 2 / 3, " dotted": 1.5}[mod]
    ctx.close("rhythm_frequency", fx.get_frequency_from_musical_rhythm(note + mod, bpm), 1 / dur, 1e-12)
    ctx.close("rhythm_period", fx.get_time_period_from_musical_rhythm(note + mod, bpm), dur, 1e-12)
    l.set_parameters(frequency_hz=(note + mod, bpm))
    ctx.close("rhythm_lfo", l.frequency_hz, 1 / dur, 1e-12)
    ctx.close("smooth_kept", l.get_waveform(fs, n), fx.LFO(float(l.frequency_hz), kind, False, smooth).get_waveform(fs, n), 1e-9)


def chorus(ctx):
    """Sum of the clean signal and of its delayed voices."""
    fs = ctx.pick("fs", [8000, 16000, 44100])
    n, c = ctx.int("n", 200, 1200), ctx.int("ch", 1, 3)
    x = ctx.rng.normal(size=(n, c)) * 0.1
    if ctx.flag("impulse", 0.3):
        x = x * 0
        x[ctx.int("at", 0, n // 2)] = 0.5
    v = ctx.int("voices", 1, 4)
    mix = ctx.pick("mix", [100.0, 50.0, 7.0])
    d, b = ctx.rng.uniform(0.1, 3, v), ctx.rng.uniform(4, 15, v)
    one = ctx.pick("single", ["", "depth", "base", "lfo"])
    if one == "depth":
        d = d[:1]
    if one == "base":
        b = b[:1]
    how = ctx.pick("modulators", ["lfo", "array"])
    if how == "lfo":
        ls = [some_lfo(ctx, f"lfo{i}", fs) for i in range(1 if one == "lfo" else v)]
        w = np.stack([l[1](n) for l in (ls * v if one == "lfo" else ls)], axis=1)
        ms = w * d + b
        given = [l[0] for l in ls] if len(ls) > 1 or ctx.flag("list") else ls[0][0]
    else:
        ms = ctx.rng.uniform(1, 20, (n + ctx.pick("longer", [0, 5, -7]), v))
        given = ms[:, 0].copy() if v == 1 and ctx.flag("flat") else ms.copy()
        ms = np.concatenate([ms, np.zeros((n, v))])[:n]
    d0 = float(d[0]) if len(d) == 1 and ctx.flag("float") else d
    b0 = float(b[0]) if len(b) == 1 and ctx.flag("float2") else b
    if ctx.flag("later"):
        e = fx.Chorus()
        e.set_parameters(d0, b0, given, mix)
    else:
        e = fx.Chorus(d0, b0, given, mix)
    k = np.round(ms * 1e-3 * fs).astype(int)
    wet = x.copy()
    i = np.arange(n)
    for q in range(v):
        j = i - k[:, q]
        ok = j >= 0
        wet[ok] += x[j[ok]]
    expected = restore(wet * mix / 100 + x * (1 - mix / 100), peaks(x))
    y = silent(lambda: e.apply(make(x, fs))).time_data
    bad = np.any(np.abs(y - expected) > 1e-9, axis=1)
    # delays next to half a sample may be rounded either way
    odd = np.any(np.abs(ms * 1e-3 * fs % 1 - 0.5) < 1e-6, axis=1)
    ctx.ok("definition", not np.any(bad & ~odd), f"{np.sum(bad)} samples, first {np.argmax(bad)}")
    ctx.close("peak", peaks(y), peaks(x), 1e-9)
    ctx.equal("voices", e.number_of_voices, v)


def delay(ctx):
    """Recursive delay line."""
    fs = ctx.pick("fs", [8000, 16000, 44100])
    n, c = ctx.int("n", 3, 600), ctx.int("ch", 1, 3)
    c = min(n, c)
    ms, fb = float(ctx.uniform("ms", 0.5, 30)), float(ctx.uniform("feedback", 0.01, 0.95))
    sat = ctx.pick("saturation", [None, "digital", "arctan", "Arctan", "callable"])
    e = fx.DigitalDelay(ms, fb)
    x = ctx.rng.normal(size=(n, c)) * 0.1
    if ctx.flag("impulse"):
        x = x * 0
        x[0] = 1e-2
    if ctx.flag("later"):
        e = fx.DigitalDelay()
        e.set_parameters(delay_time_ms=ms)
        e.set_parameters(feedback=fb)
    if sat == "callable":
        g = lambda u: float(np.tanh(u) * 0.7)
        e.set_advanced_parameters(g)
        f = lambda u: np.tanh(u) * 0.7
    else:
        e.set_advanced_parameters(sat)
        f = (lambda u: 0.5 * np.arctan(2 * u)) if sat in ("arctan", "Arctan") else (lambda u: u)
    k = int(np.round(ms * 1e-3 * fs))
    if abs(ms * 1e-3 * fs % 1 - 0.5) < 1e-6:
        return ctx.ok("half_sample", True)
    y = silent(lambda: e.apply(make(x, fs))).time_data
    m = len(y)
    ctx.ok("tail", m >= n + k, f"{m} of {n} + {k}")
    z = np.concatenate([x, np.zeros((m - n, c))])
    for i in range(k, m):
        z[i] = z[i] + fb * f(z[i - k])
    ctx.close("definition", y, restore(z, peaks(x)), 1e-9, scale=np.max(peaks(x)))
    ctx.close("peak", peaks(y), peaks(x), 1e-9)


def subtraction(ctx):
    """Spectral subtraction."""
    fs = ctx.pick("fs", [8000, 16000])
    mode = ctx.pick("mode", ["adaptive", "static"])
    c = ctx.int("ch", 1, 2)
    quiet, loud = int(fs * 0.5), int(fs * 0.3)
    noise = ctx.rng.normal(size=(2 * quiet + loud, c)) * 1e-3
    x = noise.copy()
    t = np.arange(loud) / fs
    f0 = ctx.uniform("f0", 300, 0.35 * fs)
    x[quiet : quiet + loud] += (0.4 * np.sin(2 * np.pi * f0 * t) * np.hanning(loud) ** 0.1)[:, None]
    thr = -45.0
    factor, exponent = ctx.pick("factor", [1.0, 2.0, 4.0]), ctx.pick("exponent", [1, 2, 3])

    overlap, win = ctx.pick("overlap", [50, 75]), ctx.pick("win", [dsp.Window.Hann, dsp.Window.Hamming])

    def build(threshold, spec=False, block=0.02):
        e = fx.SpectralSubtractor(mode == "adaptive", float(threshold), block, spec)
        e.set_advanced_parameters(overlap, win, 0.9, factor, exponent)
        return e

    e = build(thr)
    y = silent(lambda: e.apply(make(x, fs))).time_data
    ctx.ok("finite", bool(np.all(np.isfinite(y))))
    ctx.close("peak", peaks(y), peaks(x), 1e-9)
    # noise gets removed, signal stays
    mid = slice(quiet + loud // 4, quiet + 3 * loud // 4)
    end = slice(quiet + loud + int(0.15 * fs), 2 * quiet + loud - int(0.05 * fs))
    down = 20 * np.log10(rms(y[end]) / rms(x[end]))
    least = {1.0: -1.5, 2.0: -4.0, 4.0: -7.5}[factor]
    ctx.ok("noise_reduced", bool(np.all(down < least)), f"{down} dB, factor {factor}, exponent {exponent}")
    err = rms(y[mid] - x[mid]) / rms(x[mid])
    ctx.ok("signal_kept", bool(np.all(err < 0.05)), f"{err}")
    # the level does not matter when the threshold moves along
    g = ctx.pick("gain_db", [-20.0, 6.0, -7.0])
    e2 = build(thr + g)
    y2 = silent(lambda: e2.apply(make(x * amp(g), fs))).time_data
    if mode == "static":
        # the threshold may be meant relative to the peak
        y3 = silent(lambda: e.apply(make(x * amp(g), fs))).time_data
        if np.max(np.abs(y3 - y * amp(g))) < np.max(np.abs(y2 - y * amp(g))):
            y2 = y3
    ctx.close("level_invariant", y2, y * amp(g), 1e-5, scale=amp(g) * 0.4)
    # nothing below the threshold: nothing subtracted
    if mode == "adaptive":
        e3 = build(-300)
        y3 = silent(lambda: e3.apply(make(x, fs))).time_data
        ctx.close("nothing_subtracted", y3, x, 1e-5, scale=0.4)
    # given spectrum: frequencies in there are removed
    w = 256
    f1, f2 = 20 * fs / w, 80 * fs / w
    tt = np.arange(4000) / fs
    a, b = 0.3 * np.sin(2 * np.pi * f1 * tt), 0.3 * np.sin(2 * np.pi * f2 * tt + 1)
    spec = np.zeros(w // 2 + 1)
    spec[70:91] = 1e6
    e4 = silent(lambda: build(thr, spec))
    y4 = silent(lambda: e4.apply(make((a + b)[:, None], fs))).time_data[500:-500, 0]
    a = a[500:-500]
    y4 = y4 / np.sqrt(np.mean(y4**2)) * np.sqrt(np.mean(a**2))
    ctx.ok("spectrum_removed", np.sqrt(np.mean((y4 - a) ** 2) / np.mean(a**2)) < 0.05, f"{np.sqrt(np.mean((y4 - a) ** 2))}")


def history(ctx):
    """A sequence of parameter changes ends where a new object starts."""
    fs = 16000
    n = 700
    x = make(ctx.rng.normal(size=(n, 2)) * 0.2, fs)
    kind = ctx.pick("effect", ["compressor", "tremolo", "delay", "chorus", "lfo", "subtractor"])

    def values():
        if kind == "compressor":
            return dict(threshold_dbfs=float(ctx.rng.uniform(-40, -5)), attack_time_ms=float(ctx.rng.uniform(0, 5)), release_time_ms=float(ctx.rng.uniform(0, 9)), ratio=float(ctx.rng.uniform(1, 9)), relative_to_peak_level=bool(ctx.rng.integers(2)))
        if kind == "tremolo":
            return dict(depth=float(ctx.rng.uniform(0.1, 1)), modulator=fx.LFO(float(ctx.rng.uniform(1, 9)), "triangle"))
        if kind == "delay":
            return dict(delay_time_ms=float(ctx.rng.uniform(1, 20)), feedback=float(ctx.rng.uniform(0.1, 0.9)))
        if kind == "chorus":
            return dict(depths_ms=float(ctx.rng.uniform(0.1, 2)), base_delays_ms=float(ctx.rng.uniform(5, 9)), modulators=fx.LFO(float(ctx.rng.uniform(1, 9)), "harmonic"), mix_percent=float(ctx.rng.uniform(5, 100)))
        if kind == "subtractor":
            return dict(adaptive_mode=True, threshold_rms_dbfs=float(ctx.rng.uniform(-60, -5)), block_length_s=float(ctx.rng.uniform(0.002, 0.02)))
        return dict(frequency_hz=float(ctx.rng.uniform(0.5, 50)), waveform=["harmonic", "sawtooth", "triangle", "square"][int(ctx.rng.integers(4))], random_phase=False, smooth=int(ctx.rng.integers(8)))

    cls = dict(compressor=fx.Compressor, tremolo=fx.Tremolo, delay=fx.DigitalDelay, chorus=fx.Chorus, lfo=fx.LFO, subtractor=fx.SpectralSubtractor)[kind]

    def out(e):
        return e.get_waveform(fs, n) if kind == "lfo" else silent(lambda: e.apply(x)).time_data

    now = values()
    e = cls(**now)
    for _ in range(ctx.int("changes", 1, 6)):
        new = values()
        keys = [k for k in new if ctx.rng.random() < 0.5]
        e.set_parameters(**{k: (new[k] if k in keys else None) for k in new} if ctx.rng.random() < 0.5 else {k: new[k] for k in keys})
        now.update({k: new[k] for k in keys})
        if ctx.rng.random() < 0.5:
            out(e)
    ctx.equal("as_new", out(e), out(cls(**now)))
    if kind == "chorus":
        v = int(ctx.rng.integers(2, 5))
        b = ctx.rng.uniform(4, 12, v)
        e.set_parameters(base_delays_ms=b)
        now["base_delays_ms"] = b
        ctx.equal("more_voices", out(e), out(cls(**now)))


MORE = 3  # times the number of cases below in the quick tier
FAMILIES = [
    Family("common", common, 200, 5000),
    Family("distortion", distortion, 250, 8000),
    Family("compressor", compressor, 120, 3000),
    Family("ballistics", ballistics, 40, 600),
    Family("tremolo", tremolo, 150, 4000),
    Family("oscillator", oscillator, 250, 8000),
    Family("chorus", chorus, 120, 3000),
    Family("delay", delay, 150, 4000),
    Family("subtraction", subtraction, 48, 1200),
    Family("history", history, 120, 2500),
]
