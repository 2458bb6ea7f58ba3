"""P18: cutting, padding, joining and selecting."""

import numpy as np
import dsptoolbox as dsp
from dsptoolbox import tools
from rtm.core import Family
from rtm import gen

PROPERTY = "P18"


def settings(s):
    return (
        type(s).__name__, s.sampling_rate_hz, s.constrain_amplitude, s.calibrated_signal,
        s.activate_cache, getattr(s, "_spectrum_parameters", None),
        getattr(s, "_spectrogram_parameters", None),
    )


def make(ctx, ch=(1, 4), nmin=50, nmax=3000, complex_p=0.4, cls=None, fs=None, scale=True):
    fs = fs or ctx.pick("fs", gen.FS)
    n = ctx.int("n", nmin, nmax)
    c = ctx.int("ch", *ch)
    x = ctx.normal(n, c)
    if complex_p and ctx.flag("complex", complex_p):
        x = x + 1j * ctx.normal(n, c)
    x /= np.max(np.abs(x)) * 1.01
    cls = cls or ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    s = cls(None, x.copy(), fs, constrain_amplitude=ctx.flag("constrain"), activate_cache=ctx.flag("cache"))
    s.calibrated_signal = ctx.flag("calib")
    s.set_spectrum_parameters(**gen.random_spectrum_params(ctx, 100, None if cls is dsp.Signal else gen.SM.FFT))
    s.set_spectrogram_parameters(**gen.random_spectrogram_params(ctx, 100))
    return s, x


def multiband(ctx, nb=None, **kw):
    s, x = make(ctx, **kw)
    nb = nb or ctx.int("bands", 2, 4)
    bands, xs = [s], [x]
    for _ in range(nb - 1):
        y = ctx.normal(*x.shape) + (1j * ctx.normal(*x.shape) if np.iscomplexobj(x) else 0)
        y /= np.max(np.abs(y)) * 1.01
        bands.append(s.copy_with_new_time_data(y.copy()))
        xs.append(y)
    return dsp.MultiBandSignal(bands, True, info={"a": 1}), xs


def any_target(ctx, **kw):
    """A signal or multiband signal, as (object, list of (band, data))."""
    if ctx.flag("multiband", 0.3):
        mb, xs = multiband(ctx, **kw)
        return mb, list(mb.bands), xs
    s, x = make(ctx, **kw)
    return s, [s], [x]


def parts(ctx, obj, nb, key):
    if isinstance(obj, dsp.MultiBandSignal):
        ctx.ok(f"{key}_bands", obj.number_of_bands == nb)
        return obj.bands
    return [obj]


def compare(ctx, key, out, bands, expected):
    for o, b, e in zip(parts(ctx, out, len(bands), key), bands, expected):
        ctx.equal(f"{key}_settings", settings(o), settings(b))
        ctx.equal(f"{key}_complex", o.is_complex_signal, np.iscomplexobj(e))
        ctx.equal(f"{key}_samples", gen.full(o), e)
        ctx.equal(f"{key}_length", (o.length_samples, len(o)), (len(e), len(e)))


def pad_trim(ctx):
    obj, bands, xs = any_target(ctx)
    n = len(xs[0])
    m = ctx.int("m", 8, 2 * n)
    end = ctx.flag("end")
    out = dsp.pad_trim(obj, m, end)
    exp = []
    for x in xs:
        e = np.zeros((m, x.shape[1]), x.dtype)
        k = min(n, m)
        if end:
            e[:k] = x[:k]
        else:
            e[m - k:] = x[n - k:]
        exp.append(e)
    compare(ctx, "pad_trim", out, bands, exp)
    if m >= n:
        compare(ctx, "pad_then_trim", dsp.pad_trim(out, n, end), bands, xs)


def modify_length(ctx):
    obj, bands, xs = any_target(ctx)
    n = len(xs[0])
    fs = bands[0].sampling_rate_hz
    a = ctx.int("a", -n // 3, n)
    b = ctx.int("b", -n // 3, n)
    none = ctx.pick("none", ["", "", "start", "end"])
    sa = None if none == "start" else a / fs
    sb = None if none == "end" else b / fs
    a = 0 if sa is None else a
    b = 0 if sb is None else b
    out = dsp.modify_signal_length(obj, sa, sb)
    exp = []
    for x in xs:
        e = x[max(-a, 0):]
        e = e[: len(e) - max(-b, 0)]
        z = lambda k: np.zeros((max(k, 0), x.shape[1]), x.dtype)
        exp.append(np.concatenate([z(a), e, z(b)]))
    compare(ctx, "modify_length", out, bands, exp)
    if a >= 0 and b >= 0 and (a or b):
        compare(ctx, "extend_then_cut", dsp.modify_signal_length(out, -a / fs, -b / fs), bands, xs)
    ctx.raises("cut_everything", lambda: dsp.modify_signal_length(obj, -(n + 1) / fs, 0.0))


def time_selection(ctx):
    obj, bands, xs = any_target(ctx)
    n = len(xs[0])
    fs = bands[0].sampling_rate_hz
    inclusive = ctx.flag("inclusive")
    k1 = ctx.int("k1", 0, n // 2)
    k2 = ctx.int("k2", n // 2 + 3, n - 1)
    none = ctx.pick("none", ["", "", "start", "end"])
    on_grid = ctx.flag("on_grid", 0.7)
    off = 0.0 if on_grid else ctx.uniform("off", 0.1, 0.9)
    s1 = None if none == "start" else (k1 + off) / fs
    s2 = None if none == "end" else (k2 + off) / fs
    out = dsp.trim_with_time_selection(obj, s1, s2, inclusive)
    # times in between samples: the selection may start or stop at either
    # neighbouring sample; on the grid it is exact
    lo = 0 if s1 is None else k1 + (0 if inclusive else 1)
    hi = n if s2 is None else (k2 + 1 if inclusive else k2)
    if on_grid:
        compare(ctx, "time_selection", out, bands, [x[lo:hi] for x in xs])
    else:
        for o, b, x in zip(parts(ctx, out, len(xs), "time_selection_off"), bands, xs):
            d = gen.full(o)
            starts = [0] if s1 is None else [k1, k1 + 1]
            stops = [n] if s2 is None else [k2, k2 + 1]
            ctx.ok("time_selection_between_samples", any(np.array_equal(d, x[i:j]) for i in starts for j in stops),
                   f"{len(d)} samples")
            ctx.equal("time_selection_settings", settings(o), settings(b))
    ctx.raises("time_selection_start_beyond_end", lambda: dsp.trim_with_time_selection(obj, (n + 2) / fs, None, inclusive))
    ctx.raises("time_selection_negative", lambda: dsp.trim_with_time_selection(obj, -1 / fs, None, inclusive))
    ctx.raises("time_selection_end_zero", lambda: dsp.trim_with_time_selection(obj, None, 0.0, inclusive))


def level_threshold(ctx):
    s, x = make(ctx, complex_p=0)
    n, c = x.shape
    thr = ctx.uniform("thr", -60, -20)
    lin = 10 ** (thr / 20)
    x = x * lin * 0.3
    for ch in range(c):
        k = ctx.int("peaks", 1, 3)
        for p in ctx.rng.integers(0, n, k):
            x[p, ch] = ctx.rng.choice([-1, 1]) * ctx.rng.uniform(1.2 * lin, 1.0)
    s = s.copy_with_new_time_data(x.copy())
    st, en = ctx.pick("sides", [(True, True), (True, False), (False, True)])
    out, a, b = dsp.trim_with_level_threshold(s, thr, st, en)
    idx = np.nonzero(np.any(np.abs(x) >= lin, axis=1))[0]
    ea = idx[0] if st else 0
    eb = idx[-1] + 1 if en else n
    ctx.equal("level_indices", (a, b), (int(ea), int(eb)))
    ctx.need(eb - ea >= c)  # shorter results are transposed
    compare(ctx, "level_threshold", out, [s], [x[ea:eb]])


def append(ctx):
    k = ctx.int("k", 2, 4)
    s0, x0 = make(ctx)
    sigs, xs = [s0], [x0]
    for _ in range(k - 1):
        s, x = make(ctx, fs=s0.sampling_rate_hz)
        sigs.append(s)
        xs.append(x)
    at_end = ctx.flag("at_end")
    n = len(x0)
    out = dsp.append_signals(sigs, True, at_end)
    cplx = any(np.iscomplexobj(x) for x in xs)
    exp = []
    for x in xs:
        e = np.zeros((n, x.shape[1]), complex if cplx else float)
        m = min(n, len(x))
        if at_end:
            e[:m] = x[:m]
        else:
            e[n - m:] = x[len(x) - m:]
        exp.append(e)
    compare(ctx, "append", out, [s0], [np.concatenate(exp, axis=1)])
    if any(len(x) != n for x in xs):
        ctx.raises("append_lengths", lambda: dsp.append_signals(sigs, False))
    # every appended piece is found back
    c = 0
    for e in exp:
        got = out.get_channels(np.arange(c, c + e.shape[1]))
        ctx.equal("append_found_back", gen.full(got), e)
        c += e.shape[1]


def append_multiband(ctx):
    k = ctx.int("k", 2, 3)
    nb = ctx.int("nb", 2, 4)
    mb0, xs0 = multiband(ctx, nb=nb)
    cplx = np.iscomplexobj(xs0[0])
    mbs, xss = [mb0], [xs0]
    for _ in range(k - 1):
        mb, xs = multiband(ctx, nb=nb, fs=mb0.sampling_rate_hz, complex_p=0)
        mbs.append(mb)
        xss.append(xs)
    at_end = ctx.flag("at_end")
    n = len(xs0[0])
    out = dsp.append_signals(mbs, True, at_end)
    ctx.equal("append_multiband_bands", out.number_of_bands, nb)
    for i in range(nb):
        exp = []
        for xs in xss:
            x = xs[i]
            e = np.zeros((n, x.shape[1]), complex if cplx else float)
            m = min(n, len(x))
            e[(0 if at_end else n - m):(m if at_end else n)] = x[:m] if at_end else x[len(x) - m:]
            exp.append(e)
        ctx.equal("append_multiband_samples", gen.full(out.bands[i]), np.concatenate(exp, axis=1))
        ctx.equal("append_multiband_settings", settings(out.bands[i]), settings(mb0.bands[i]))


def channels(ctx):
    s, x = make(ctx, ch=(2, 5))
    n, c = x.shape
    sel = ctx.rng.integers(0, c, ctx.int("k", 1, c))
    out = s.get_channels(sel if ctx.flag("array") or len(sel) > 1 else int(sel[0]))
    compare(ctx, "get_channels", out, [s], [x[:, sel]])
    compare(ctx, "get_last_channel", s.get_channels(-1), [s], [x[:, -1:]])
    compare(ctx, "sum_channels", dsp.Signal(None, gen.full(s), 48000).sum_channels(),
            [dsp.Signal(None, x, 48000)], [x.sum(axis=1, keepdims=True)])
    st = settings(s)
    perm = ctx.rng.permutation(c)
    s2 = s.copy()
    r = s2.swap_channels(perm if ctx.flag("parray") else list(perm))
    ctx.ok("swap_returns_self", r is s2)
    ctx.equal("swap_samples", gen.full(s2), x[:, perm])
    ctx.equal("swap_settings", settings(s2), st)
    s3 = s.copy()
    k = ctx.int("rm", -1, c - 1)
    s3.remove_channel(k)
    ctx.equal("remove_samples", gen.full(s3), np.delete(x, k, axis=1))
    ctx.equal("remove_settings", settings(s3), st)
    ctx.equal("original_kept", gen.full(s), x)
    it = list(iter(s))
    ctx.ok("iter_channels", len(it) == c and all(np.array_equal(it[i], x.real[:, i]) for i in range(c)))
    if not np.iscomplexobj(x):
        s4 = s.copy()
        m = ctx.int("m", n // 2, 2 * n)
        y = ctx.normal(m, ctx.int("ych", 1, 2)) * 0.1
        s4.add_channel(None, y[:, 0] if ctx.flag("oned") and y.shape[1] == 1 else y, s.sampling_rate_hz)
        e = np.zeros((n, y.shape[1]))
        e[: min(n, m)] = y[: min(n, m)]
        ctx.equal("add_channel_samples", gen.full(s4), np.concatenate([x, e], axis=1))
        ctx.equal("add_channel_settings", settings(s4), st)


def bands(ctx):
    mb, xs = multiband(ctx, nb=ctx.int("nb", 2, 5))
    nb = len(xs)
    st = settings(mb.bands[0])
    perm = ctx.rng.permutation(nb)
    m2 = mb.copy()
    m2.swap_bands(perm)
    ctx.ok("swap_bands", all(np.array_equal(gen.full(m2.bands[i]), xs[p]) for i, p in enumerate(perm)))
    m3 = mb.copy()
    k = ctx.int("k", -1, nb - 1)
    got = m3.remove_band(k, return_band=True)
    rest = [x for i, x in enumerate(xs) if i != k % nb]
    ctx.equal("remove_band_returned", gen.full(got), xs[k])
    ctx.ok("remove_band_rest", m3.number_of_bands == nb - 1 and all(np.array_equal(gen.full(b), x) for b, x in zip(m3.bands, rest)))
    ix = ctx.int("ix", -1, nb - 1)
    m3.add_band(got, ix)
    order = rest + [xs[k]] if ix == -1 else rest[:ix] + [xs[k]] + rest[ix:]
    ctx.ok("add_band_order", m3.number_of_bands == nb and all(np.array_equal(gen.full(b), x) for b, x in zip(m3.bands, order)))
    c = ctx.int("c", 0, xs[0].shape[1] - 1)
    allb = mb.get_all_bands(c)
    ctx.equal("all_bands_samples", gen.full(allb), np.stack([x[:, c] for x in xs], axis=1))
    ctx.equal("all_bands_type", (type(allb).__name__, allb.sampling_rate_hz), st[:2])
    td, fs = mb.get_all_time_data()
    ctx.equal("all_time_data", td, np.stack(xs, axis=1))
    ctx.equal("all_time_data_fs", fs, mb.sampling_rate_hz)
    total = sum(xs)
    if st[2] and max(np.abs(total.real).max(), np.abs(total.imag).max()) > 1:
        total = total / max(np.abs(total.real).max(), np.abs(total.imag).max())
    for rep in range(2):
        col = mb.collapse()
        ctx.close(f"collapse_sum_{rep}", gen.full(col), total, 1e-12)
    ctx.equal("collapse_settings", settings(col), st)
    ctx.ok("bands_unchanged", all(np.array_equal(gen.full(b), x) for b, x in zip(mb.bands, xs)))


def bands_multirate(ctx):
    """Bands with sampling rates and lengths of their own."""
    nb, c = ctx.int("nb", 1, 4), ctx.int("ch", 1, 3)
    cx = ctx.flag("complex", 0.4)
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    rates = [int(r) for r in ctx.rng.choice([8000, 16000, 32000, 48000], nb, replace=False)]
    xs = []
    for _ in rates:
        x = ctx.normal(ctx.rng.integers(10, 300), c)
        xs.append(x + 1j * ctx.normal(len(x), c) if cx else x)
    one = lambda x, r: cls(None, x.copy(), r, constrain_amplitude=False)
    mb = dsp.MultiBandSignal([one(x, r) for x, r in zip(xs, rates)], same_sampling_rate=False)
    model = list(zip(xs, rates))
    for _ in range(ctx.int("steps", 1, 8)):
        what = ctx.pick("step", ["add", "remove", "swap", "read", "copy", "set", "strict"])
        if what == "add":
            i = ctx.int("at", -1, len(model) - 1) if model else -1
            x, r = ctx.normal(ctx.rng.integers(10, 100), c), int(ctx.rng.choice([8000, 48000, 96000]))
            x = x + 1j * x if cx else x
            mb.add_band(one(x, r), i)
            model = model + [(x, r)] if i == -1 else model[:i] + [(x, r)] + model[i:]
        elif what == "remove" and len(model) > 1:
            i = ctx.int("at", -1, len(model) - 1)
            b = mb.remove_band(i, return_band=True)
            ctx.equal("multirate_removed", gen.full(b), model[i][0])
            model.pop(i)
        elif what == "swap" and len(model) > 1:
            p = [int(i) for i in ctx.rng.permutation(len(model))]
            mb.swap_bands(p)
            model = [model[i] for i in p]
        elif what == "copy":
            old, mb = mb, mb.copy()
            old.bands[0].time_data = np.zeros((20, c))
        elif what == "set":
            model = model[::-1]
            mb.bands = [one(x, r) for x, r in model]
        elif what == "strict" and len({r for _, r in model}) > 1:
            ctx.raises("multirate_strict", lambda: setattr(mb, "same_sampling_rate", True))
            ctx.raises("multirate_collapse", mb.collapse)
        k = ctx.int("channel", 0, c - 1)
        ctx.ok("multirate_bands", len(mb) == mb.number_of_bands == len(model) and mb.number_of_channels == c and not mb.same_sampling_rate)
        ctx.ok("multirate_samples", all(np.array_equal(gen.full(b), x) and b.sampling_rate_hz == r for b, (x, r) in zip(mb.bands, model)), what)
        ctx.equal("multirate_rates", [int(r) for r in np.atleast_1d(mb.sampling_rate_hz)], [r for _, r in model])
        td, sr = mb.get_all_bands(k)
        ctx.ok("multirate_all_bands", [int(r) for r in sr] == [r for _, r in model] and len(td) == len(model) and all(np.array_equal(np.squeeze(t), np.squeeze(x[:, k])) for t, (x, _) in zip(td, model)))
        al = mb.get_all_time_data()
        ctx.ok("multirate_all_data", len(al) == len(model) and all(np.array_equal(t, x) and int(r) == q for (t, r), (x, q) in zip(al, model)))
        md, text = mb.metadata, mb.metadata_str
        ctx.equal("multirate_metadata", (md["number_of_bands"], md["same_sampling_rate"], md["number_of_channels"]), (len(model), False, c))
        ctx.ok("multirate_text", text == str(mb) and all(str(r) in text for _, r in model) and text.count("Signal ") >= len(model))
        for t in list(td) + [t for t, _ in al]:
            t *= 0
        ctx.ok("multirate_own_data", all(np.array_equal(gen.full(b), x) for b, (x, _) in zip(mb.bands, model)))


def framing(ctx):
    n = ctx.int("n", 40, 2000)
    c = ctx.int("ch", 1, 3)
    x = ctx.normal(n, c)
    W = ctx.int("W", 5, min(n, 200))
    step = ctx.int("step", 1, W)
    keep = ctx.flag("keep")
    fr = tools.framed_signal(x.copy(), W, step, keep)
    nf = -(-n // step) if keep else (n - W) // step + 1
    if not keep and (n - W) % step == 0:
        ctx.ok("last_complete_frame", fr.shape[1] == nf, f"{fr.shape[1]} frames instead of {nf}: n={n} window={W} step={step}")
        if fr.shape[1] == nf - 1:
            nf -= 1
        if nf == 0:
            return
    exp = np.zeros((W, nf, c))
    for i in range(nf):
        seg = x[i * step: i * step + W]
        exp[: len(seg), i] = seg
    ctx.equal("frames", fr, exp)
    win = ctx.pick("win", [None, "hamming", "array"])
    if win is None:
        if step == W:
            ctx.equal("rejoin_without_overlap", tools.reconstruct_from_framed_signal(fr.copy(), step, None, n if keep else None),
                      x if keep else x[: nf * W])
        return
    w = np.hamming(W) + 0.01 if win == "array" else win
    import scipy.signal as sg

    wv = w.copy() if win == "array" else sg.windows.get_window("hamming", W)
    rec = tools.reconstruct_from_framed_signal((fr * wv[:, None, None]), step, w if win == "array" else "hamming", n if keep else None)
    full = n if keep else (nf - 1) * step + W
    ctx.close("rejoin_windowed", rec, x[:full], 1e-9)


def time_axis(ctx):
    s, x = make(ctx, complex_p=0)
    n = len(x)
    t = np.asarray(s.time_vector_s)
    ctx.ok("time_vector", t.shape == (n,) and t[0] == 0 and t[-1] <= n / s.sampling_rate_hz * (1 + 1e-12)
           and (n < 2 or np.allclose(np.diff(t), t[-1] / (n - 1), rtol=1e-6)), "not equidistant from zero up to the length")
    if n > 1:
        ctx.ok("time_vector_spacing", abs(t[1] * s.sampling_rate_hz - 1) <= 1.0001 / (n - 1), f"{t[1]} {s.sampling_rate_hz}")
    ctx.close("length_seconds", s.length_seconds, n / s.sampling_rate_hz, 1e-12)
    ctx.equal("metadata_length", s.metadata["signal_length_samples"], n)


MORE = 6  # times the number of cases below in the quick tier
FAMILIES = [
    Family("pad_trim", pad_trim, 400, 4000),
    Family("modify_length", modify_length, 300, 3000),
    Family("time_selection", time_selection, 500, 5000),
    Family("level_threshold", level_threshold, 300, 3000),
    Family("append", append, 200, 2000),
    Family("append_multiband", append_multiband, 200, 2000),
    Family("channels", channels, 200, 2000),
    Family("bands", bands, 200, 2000),
    Family("bands_multirate", bands_multirate, 150, 2000),
    Family("framing", framing, 400, 4000),
    Family("time_axis", time_axis, 100, 1000),
]
