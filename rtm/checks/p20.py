"""P20: spectrum containers."""

import numpy as np
import dsptoolbox as dsp
from scipy.integrate import trapezoid
from scipy.interpolate import PchipInterpolator
from dsptoolbox.standard.enums import (
    FrequencySpacing as FS, InterpolationDomain as ID, InterpolationScheme as IS,
    InterpolationEdgeHandling as IE, SpectrumType as ST,
)
from rtm.core import Family
from rtm import gen

PROPERTY = "P20"
DOM = [ID.Magnitude, ID.Power, ID.Complex, ID.MagnitudePhase]
SCH = [IS.Linear, IS.Cubic, IS.Pchip]
EDG = [IE.ZeroPad, IE.OnePad, IE.Extend, IE.Error]
OUT = [ST.Magnitude, ST.Power, ST.Db, ST.Complex]


def freqs(ctx, n=None, spacing=None):
    n = n or ctx.int("bins", 4, 300)
    sp = spacing or ctx.pick("spacing", ["lin", "lin0", "log", "other"])
    if sp == "lin":
        return ctx.uniform("f0", 1, 200) + np.arange(n) * ctx.uniform("df", 0.5, 40)
    if sp == "lin0":
        return np.arange(n) * ctx.uniform("df", 0.5, 40)
    if sp == "log":
        return ctx.uniform("f0", 5, 100) * 2 ** (np.arange(n) * ctx.logu("oct", 0.01, min(0.5, 12 / n)))
    return np.cumsum(ctx.rng.uniform(0.3, 30, n)) + ctx.uniform("f0", 0, 50)


def smooth_data(ctx, f, c, cplx):
    """Data that varies slowly enough over the bins for its phase to unwrap."""
    n = len(f)
    u = np.linspace(0, 1, n)[:, None]
    m = 0.2 + ctx.rng.uniform(0.1, 3, (1, c)) * (1.2 + np.sin(2 * np.pi * (u * ctx.rng.uniform(0.2, 1.5, (1, c)) + ctx.rng.uniform(0, 1, (1, c)))))
    if not cplx:
        return m
    return m * np.exp(1j * (ctx.rng.uniform(-3, 3, (1, c)) + u * min(0.4 * n, 40) * ctx.rng.uniform(-1, 1, (1, c))))


def make(ctx, kind=None, n=None, ch=(1, 4), cplx=None, spacing=None, coh=True):
    f = freqs(ctx, n, spacing)
    c = ctx.int("ch", *ch)
    cplx = ctx.flag("complex") if cplx is None else cplx
    if (kind or ctx.pick("kind", ["rough", "smooth"])) == "smooth":
        d = smooth_data(ctx, f, c, cplx)
    else:
        d = np.abs(ctx.normal(len(f), c)) + 0.05
        if cplx:
            d = d * np.exp(1j * ctx.rng.uniform(-np.pi, np.pi, d.shape))
    s = dsp.Spectrum(f.copy(), d.copy())
    co = None
    if coh and ctx.flag("coherence", 0.6):
        co = ctx.rng.uniform(0, 1, d.shape)
        s.set_coherence(co.copy())
    return s, f, d, co


def interp(ctx, s, cplx, edges=None, dom=None):
    d = dom or ctx.pick("domain", DOM if cplx else DOM[:2])
    sc = ctx.pick("scheme", SCH)
    e = edges or ctx.pick("edges", EDG)
    s.set_interpolator_parameters(d, sc, e)
    return d, sc, e


def as_type(v, t):
    """The representation of complex or magnitude values in an output type."""
    if t == ST.Complex:
        return v
    m = np.abs(v)
    return {ST.Magnitude: m, ST.Power: m**2, ST.Db: 20 * np.log10(np.maximum(m, 1e-30))}[t]


def close_type(ctx, key, t, got, values, tol=1e-9):
    ctx.ok(f"{key}_dtype", np.iscomplexobj(got) == (t == ST.Complex), f"{got.dtype} for {t}")
    if t == ST.Db:
        ctx.close(key, 10 ** (got / 20), np.abs(values), tol, scale=np.max(np.abs(values)))
        return
    e = as_type(values, t)
    ctx.close(key, got, e, tol, scale=np.max(np.abs(e)))


def state(ctx, key, s, f, d, co):
    ctx.equal(f"{key}_frequencies", s.frequency_vector_hz, f)
    ctx.equal(f"{key}_data", s.spectral_data, d)
    ctx.ok(f"{key}_has_coherence", s.has_coherence == (co is not None))
    if co is not None:
        ctx.equal(f"{key}_coherence", s.coherence, co)
    ctx.equal(f"{key}_shape", (s.number_frequency_bins, s.length_frequency_bins, len(s), s.number_of_channels), (len(f), len(f)) + d.shape)
    ctx.ok(f"{key}_kind", s.is_complex == np.iscomplexobj(d) and s.is_magnitude != s.is_complex
           and s.spectrum_type == (ST.Complex if np.iscomplexobj(d) else ST.Magnitude))


def own(ctx):
    s, f, d, co = make(ctx)
    cplx = np.iscomplexobj(d)
    state(ctx, "built", s, f, d, co)
    for _ in range(3):
        dom, sc, e = interp(ctx, s, cplx)
        t = ctx.pick("out", OUT if cplx else OUT[:3])
        sel = np.sort(ctx.rng.permutation(len(f))[: ctx.int("k", 1, len(f))])
        if ctx.flag("all"):
            sel = np.arange(len(f))
        if ctx.flag("unsorted", 0.3):
            ctx.rng.shuffle(sel)
        out = s.get_interpolated_spectrum(f[sel], t)
        close_type(ctx, f"own_{dom.name}_{sc.name}", t, out, d[sel])
    state(ctx, "read", s, f, d, co)


def between(ctx):
    """Data that is linear in the domain of interpolation comes back exactly with
    every scheme; smooth data is met closely and stays in its neighbours' range."""
    f = freqs(ctx, ctx.int("bins", 8, 200))
    n = len(f)
    c = ctx.int("ch", 1, 3)
    cplx = ctx.flag("complex")
    dom = ctx.pick("dom", DOM if cplx else DOM[:2])
    a, b = ctx.rng.uniform(0.1, 2, (1, c)), ctx.rng.uniform(0.1, 2, (1, c))
    pa, pb = ctx.rng.uniform(-3, 3, (1, c)), ctx.rng.uniform(-1, 1, (1, c)) * min(n * 0.2, 30)
    mx = np.max(np.diff(f)) / (f[-1] - f[0])  # largest phase step has to stay below pi
    pb *= min(1, 2.5 / (np.max(np.abs(pb)) * mx + 1e-9))

    def fn(x):
        u = ((x - f[0]) / (f[-1] - f[0]))[:, None]
        lin = a + (b - a) * u
        ph = np.exp(1j * (pa + pb * u)) if cplx else 1.0
        if dom == ID.Power:
            return np.sqrt(lin) * ph
        if dom == ID.Complex:
            return lin * np.exp(1j * pa) + 1j * np.exp(1j * pa) * pb * u
        return lin * ph

    s = dsp.Spectrum(f, fn(f))
    sc = ctx.pick("scheme", SCH)
    s.set_interpolator_parameters(dom, sc, ctx.pick("edges", EDG))
    q = np.sort(ctx.rng.uniform(f[0], f[-1], ctx.int("q", 1, 100)))
    t = ctx.pick("out", OUT[:3] + ([ST.Complex] if dom.is_complex() else []))
    close_type(ctx, f"linear_{dom.name}_{sc.name}", t, s.get_interpolated_spectrum(q, t), fn(q), 1e-7)
    # rough data
    d = np.abs(ctx.normal(n, c)) + 0.01
    s = dsp.Spectrum(f, d * np.exp(1j * ctx.rng.uniform(-3, 3, d.shape)) if cplx else d)
    s.set_interpolator_parameters(dom, sc, IE.Extend)
    out = s.get_interpolated_spectrum(q, ST.Magnitude)
    ctx.ok("rough_finite", np.all(np.isfinite(out)) and np.all(out >= 0), f"{np.min(out)}")
    if sc != IS.Cubic and dom != ID.Complex:
        i = np.clip(np.searchsorted(f, q), 1, n - 1)
        lo, hi = np.minimum(d[i - 1], d[i]), np.maximum(d[i - 1], d[i])
        ctx.ok("between_neighbours", np.all(out >= lo - 1e-9) and np.all(out <= hi + 1e-9))
    # the phase is kept when complex values are asked for in any domain
    if cplx:
        ds = smooth_data(ctx, f, c, True)
        s = dsp.Spectrum(f, ds)
        s.set_interpolator_parameters(ctx.pick("dom2", DOM[:2]), sc, IE.Extend)
        ref = dsp.Spectrum(f, ds).set_interpolator_parameters(ID.MagnitudePhase, sc, IE.Extend)
        ctx.close("phase_kept", s.get_interpolated_spectrum(q, ST.Complex), ref.get_interpolated_spectrum(q, ST.Complex), 1e-9, scale=np.max(np.abs(ds)))


def outside(ctx):
    s, f, d, co = make(ctx)
    cplx = np.iscomplexobj(d)
    dom, sc, e = interp(ctx, s, cplx)
    lo = f[0] * ctx.rng.uniform(0, 1, 3) if f[0] > 0 else np.zeros(0)
    lo = lo[lo < f[0]]
    hi = f[-1] * (1 + ctx.rng.uniform(1e-6, 1, 3))
    t = ctx.pick("out", OUT if cplx else OUT[:3])
    ins = f[:: max(1, len(f) // 3)]
    q = np.concatenate([lo, ins, hi])
    if e == IE.Error:
        ctx.raises("error_edge_right", lambda: s.get_interpolated_spectrum(hi, t))
        if len(lo):
            ctx.raises("error_edge_left", lambda: s.get_interpolated_spectrum(lo, t))
        return
    out = s.get_interpolated_spectrum(q, t)
    v = {IE.ZeroPad: (np.zeros_like(d[0]),) * 2, IE.OnePad: (np.ones_like(d[0]),) * 2, IE.Extend: (d[0], d[-1])}[e]
    ref = np.concatenate([np.repeat(v[0][None], len(lo), 0), d[:: max(1, len(f) // 3)], np.repeat(v[1][None], len(hi), 0)])
    if t == ST.Db and e == IE.ZeroPad:
        k = np.r_[: len(lo), len(lo) + len(ins) : len(q)]
        ctx.ok("zero_pad_db", np.all(out[k] < -150), f"{np.max(out[k])}")
        return
    close_type(ctx, f"edge_{e.name}_{dom.name}_{sc.name}", t, out, ref)


def trim(ctx):
    s, f, d, co = make(ctx)
    n = len(f)

    def limit(name):
        k = ctx.pick(name, ["none", "bin", "between", "between", "out"])
        if k == "none":
            return None
        if k == "out":
            return f[0] * 0.5 if name == "lo" else f[-1] * 1.5
        i = ctx.int(name + "i", 0, n - 2)
        return f[i] if k == "bin" else f[i] + (f[i + 1] - f[i]) * ctx.rng.uniform(0.05, 0.95)

    lo, hi = limit("lo"), limit("hi")
    inc = ctx.flag("inclusive")
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    m = np.ones(n, bool)
    if lo is not None:
        m &= f >= lo if inc else f > lo
    if hi is not None:
        m &= f <= hi if inc else f < hi
    if inc:  # the given frequencies stay inside the new range
        if lo is not None:
            m[max(np.searchsorted(f, lo, "right") - 1, 0)] = True
        if hi is not None:
            m[min(np.searchsorted(f, hi), n - 1)] = True
    ctx.need(m.sum() >= 2)
    i = np.where(m)[0]
    sl = slice(i[0], i[-1] + 1)
    energy = trapezoid(np.abs(d[sl]) ** 2, f[sl], axis=0)
    if inc:
        ctx.close("energy_range", s.get_energy(lo, hi), energy, 1e-9, scale=np.max(energy))
        state(ctx, "energy_pure", s, f, d, co)
    r = s.trim(lo, hi, inc)
    ctx.ok("trim_self", r is s)
    state(ctx, "trim", s, f[sl], d[sl], None if co is None else co[sl])
    ctx.close("energy_total", s.get_energy(), energy, 1e-9, scale=np.max(energy))


def channels(ctx):
    s, f, d, co = make(ctx, ch=(1, 6), n=ctx.int("nb", 2, 40))
    dom, sc, e = interp(ctx, s, np.iscomplexobj(d))
    for _ in range(ctx.int("steps", 1, 4)):
        c = d.shape[1]
        op = ctx.pick("op", ["get", "remove", "swap", "sum", "power", "copy"])
        if op == "get":
            sel = ctx.rng.permutation(c)[: ctx.int("k", 1, c)]
            if ctx.flag("scalar", 0.3):
                sel = sel[:1]
            new = s.get_channels(int(sel[0]) if len(sel) == 1 else sel)
            state(ctx, "get_source", s, f, d, co)
            s, d, co = new, d[:, sel], None if co is None else co[:, sel]
        elif op == "remove" and c > 1:
            k = ctx.int("k", -1, c - 1)
            s.remove_channel(k)
            k = c - 1 if k == -1 else k
            d = np.delete(d, k, 1)
            co = None if co is None else np.delete(co, k, 1)
        elif op == "swap":
            o = ctx.rng.permutation(c)
            s.swap_channels(o)
            d = d[:, o]
            co = None if co is None else co[:, o]
        elif op == "copy":
            new = s.copy()
            s.apply_gain(3.0)
            if co is not None:
                s.coherence *= 0.5
            s = new
        elif op in ("sum", "power"):
            new = s.sum_channels(op == "power")
            state(ctx, "sum_source", s, f, d, co)
            ref = np.sum(np.abs(d) ** 2, 1, keepdims=True) ** 0.5 if op == "power" else np.sum(d, 1, keepdims=True)
            ctx.close(f"sum_{op}", new.spectral_data, ref, 1e-12, scale=np.max(np.abs(ref)))
            ctx.ok("sum_kind", new.is_complex == np.iscomplexobj(ref))
            if c == 1 and co is not None:
                ctx.ok("sum_single", not new.has_coherence or np.array_equal(new.coherence, co))
            else:
                ctx.ok("sum_no_coherence", not new.has_coherence)
            new.get_interpolated_spectrum(f, ST.Magnitude)
            break
        state(ctx, f"op_{op}", s, f, d, co)
    # the interpolation settings travel with the data
    if s.is_complex == np.iscomplexobj(d) and op not in ("sum", "power"):
        q = f[0] + (f[-1] - f[0]) * np.linspace(-0.1, 1.1, 20)
        q = q[q >= 0]
        a = dsp.Spectrum(f, d).set_interpolator_parameters(dom, sc, e)
        try:
            ref = a.get_interpolated_spectrum(q, ST.Magnitude)
        except AssertionError:
            ctx.raises("settings_error", lambda: s.get_interpolated_spectrum(q, ST.Magnitude))
        else:
            ctx.close("settings_kept", s.get_interpolated_spectrum(q, ST.Magnitude), ref, 1e-9, atol=1e-12)


def scale(ctx):
    s, f, d, co = make(ctx)
    c = d.shape[1]
    g = ctx.rng.uniform(-40, 40, c) if ctx.flag("vector") else ctx.uniform("g", -40, 40)
    ctx.ok("gain_self", s.apply_gain(g) is s)
    d2 = d * 10 ** (np.atleast_1d(g) / 20)
    mx = np.max(np.abs(d2), 0)
    ctx.close("gain", s.spectral_data / mx, d2 / mx, 1e-12)
    state(ctx, "gain", s, f, s.spectral_data, co)
    if c > 1:
        ctx.raises("gain_count", lambda: s.apply_gain(np.ones(c + 1)))
    dom, sc, e = interp(ctx, s, np.iscomplexobj(d))
    k = ctx.int("ref", 0, len(f) - 1)
    rc = ctx.int("refch", 0, c - 1) if ctx.flag("refchannel") else None
    s.normalize(f[k], rc)
    ref = np.abs(d2[k]) if rc is None else np.abs(d2[k, rc])
    mx = mx / ref
    ctx.close("normalize", s.spectral_data / mx, d2 / ref / mx, 1e-9)
    state(ctx, "normalize", s, f, s.spectral_data, co)


def resample(ctx):
    s, f, d, co = make(ctx, "smooth" if ctx.flag("smooth") else None)
    cplx = np.iscomplexobj(d)
    dom, sc, e = interp(ctx, s, cplx)
    a, b = (0.0, 1.0) if e == IE.Error else (-0.1, 1.2)
    q = np.unique(np.abs(f[0] + (f[-1] - f[0]) * ctx.rng.uniform(a, b, ctx.int("q", 2, 150))))
    q = np.clip(q, f[0], f[-1]) if e == IE.Error else q
    q = np.unique(q)
    ctx.need(len(q) > 1)
    if ctx.flag("same", 0.2):
        q = f.copy()
    t = ST.Complex if cplx else ST.Magnitude
    ref = s.get_interpolated_spectrum(q, t)
    ctx.ok("resample_self", s.resample(q) is s)
    ctx.equal("resample_f", s.frequency_vector_hz, q)
    ctx.close("resample_data", s.spectral_data, ref, 1e-9, scale=np.max(np.abs(ref)) + 1e-300)
    ctx.ok("resample_kind", s.is_complex == cplx)
    ctx.ok("resample_has_coherence", s.has_coherence == (co is not None))
    if co is not None:
        ctx.equal("resample_coherence_shape", s.coherence.shape, s.spectral_data.shape)
        ins = (q >= f[0]) & (q <= f[-1])
        i = np.clip(np.searchsorted(f, q[ins]), 1, len(f) - 1)
        lo, hi = np.minimum(co[i - 1], co[i]), np.maximum(co[i - 1], co[i])
        ctx.ok("resample_coherence", np.all(s.coherence[ins] >= lo - 1e-9) and np.all(s.coherence[ins] <= hi + 1e-9))
        ctx.ok("coherence_range", np.all(s.coherence >= -1e-9) and np.all(s.coherence <= 1 + 1e-9))
    # the stored settings stay
    x = dsp.Spectrum(q, s.spectral_data).set_interpolator_parameters(dom, sc, e)
    mid = (q[1:] + q[:-1]) / 2
    r2 = x.get_interpolated_spectrum(mid, ST.Magnitude)
    ctx.close("resample_settings", s.get_interpolated_spectrum(mid, ST.Magnitude), r2, 1e-9, scale=np.max(r2) + 1e-300)


def signal_roundtrip(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 8, 2000)
    c = ctx.int("ch", 1, 3)
    x = ctx.normal(n, c)
    x *= 0.2 if np.max(np.abs(x)) < 4.9 else 0.9 / np.max(np.abs(x))
    sig = dsp.Signal(None, x, fs, constrain_amplitude=False)
    sig.set_spectrum_parameters(method=dsp.SpectrumMethod.FFT, pad_to_fast_length=False, scaling=dsp.SpectrumScaling.FFTBackward)
    sp = dsp.Spectrum.from_signal(sig, True)
    f, X = np.fft.rfftfreq(n, 1 / fs), np.fft.rfft(x, axis=0)
    ctx.close("from_signal_f", sp.frequency_vector_hz, f, 1e-12, atol=1e-9)
    ctx.close("from_signal", sp.spectral_data, X, 1e-9, scale=np.max(np.abs(X)))
    ctx.equal("linear_type", sp.frequency_vector_type, FS.Linear)
    interp(ctx, sp, True, IE.OnePad)
    q = np.linspace(0, fs, 9)
    before = sp.get_interpolated_spectrum(q, ST.Magnitude)
    ln = ctx.pick("length", [None, "same", "longer", "shorter"])
    m = {None: None, "same": n, "longer": n + ctx.int("more", 1, 100), "shorter": max(n - ctx.int("less", 1, 100), 4)}[ln]
    back = sp.to_signal(fs, None if m is None else m / fs)
    ref = np.zeros((m or n, c))
    k = min(n, m or n)
    ref[:k] = x[:k]
    ctx.equal("back_fs", back.sampling_rate_hz, fs)
    ctx.close(f"back_{ln}", back.time_data, ref, 1e-9, scale=1.0)
    ctx.close("to_signal_settings", sp.get_interpolated_spectrum(q, ST.Magnitude), before, 1e-12, scale=np.max(before))
    state(ctx, "to_signal_pure", sp, f if np.array_equal(f, sp.frequency_vector_hz) else sp.frequency_vector_hz, sp.spectral_data, None)
    # magnitude spectra of any method and scaling
    sig.set_spectrum_parameters(**gen.random_spectrum_params(ctx, n if n >= 64 else 64) if n >= 64 else {})
    f, y = sig.get_spectrum()
    mag = dsp.Spectrum.from_signal(sig)
    y = y.reshape(len(f), -1)
    pw = np.abs(y) ** 2 if sig.spectrum_scaling.is_amplitude_scaling() else np.abs(y)
    ctx.equal("mag_f", mag.frequency_vector_hz, f)
    ctx.ok("mag_kind", mag.is_magnitude)
    ctx.close("mag_power", mag.spectral_data**2, pw, 1e-9, scale=np.max(pw))
    if not np.iscomplexobj(y):
        ctx.raises("complex_refused", lambda: dsp.Spectrum.from_signal(sig, True))
    ctx.raises("magnitude_to_signal", lambda: mag.to_signal(fs))


def to_signal_interp(ctx):
    """Spectra on other frequency vectors become the signal of the same transfer
    function."""
    fs = ctx.pick("fs", [8000, 16000, 48000])
    n = ctx.pick("n", [512, 1000, 1001, 2048])
    dly = ctx.uniform("delay", 3, 20)
    c = ctx.int("ch", 1, 2)
    f0, bw = fs * ctx.uniform("fc", 0.22, 0.28), fs * 0.04

    def H(f):
        return (np.exp(-0.5 * ((f - f0) / bw) ** 2) * np.exp(-2j * np.pi * f * dly / fs))[:, None] * np.arange(1, c + 1)

    kind = ctx.pick("vector", ["log", "other", "linear_partial", "linear_beyond"])
    if kind == "log":
        f = np.geomspace(fs * 0.002, fs / 2, 3000)
    elif kind == "other":
        f = np.unique(ctx.rng.uniform(0, fs / 2, 3000))
    elif kind == "linear_partial":
        f = np.arange(5, int(n * 0.48)) * fs / n
    else:
        f = np.arange(0, n) * fs / n
    s = dsp.Spectrum(f, H(f))
    length = n / fs if kind in ("log", "other") or ctx.flag("length") else None
    if kind in ("log", "other"):
        ctx.raises("length_needed", lambda: s.to_signal(fs))
    sig = s.to_signal(fs, length)
    ctx.equal("interp_length", sig.length_samples, n)
    ref = np.fft.irfft(H(np.fft.rfftfreq(n, 1 / fs)), n, axis=0)
    ctx.close("interp_signal", sig.time_data, ref, 1e-3 if kind.startswith("linear") else 0.02, scale=np.max(np.abs(ref)))


def to_signal_bands(ctx):
    """Rough spectra of a part of the axis: magnitude and phase between the given
    frequencies, nothing outside of them."""
    fs = ctx.pick("fs", [8000, 16000, 48000])
    n = 2 * ctx.int("half", 100, 600) + ctx.pick("odd", [0, 1])
    c = ctx.int("ch", 1, 3)
    df = fs / n
    kind = ctx.pick("vector", ["log", "other", "linear_lower", "linear_upper", "linear_between", "linear_to_nyquist"])
    lo, hi = ctx.int("lo", 2, n // 8), ctx.int("hi", n // 4, n // 2 - 3)
    if kind == "log":
        f = np.geomspace(lo * df * 0.9, hi * df * 1.01, ctx.int("bins", 20, 300))
    elif kind == "other":
        f = np.cumsum(ctx.rng.uniform(0.3, 2, ctx.int("bins", 20, 300)))
        f = lo * df + f / f[-1] * (hi - lo) * df
    else:
        f = np.arange(0 if kind == "linear_lower" else lo, (n // 2 if kind in ("linear_upper", "linear_to_nyquist") else hi) + 1) * df
    if kind == "linear_to_nyquist":  # other resolution
        f = np.linspace(lo * df, fs / 2, ctx.int("bins", 20, 300))
    d = (0.1 + np.abs(ctx.normal(len(f), c))) * np.exp(1j * (ctx.rng.uniform(-3, 3, (1, c)) + np.cumsum(ctx.rng.uniform(-2.5, 1.5, (len(f), c)), axis=0)))
    s = dsp.Spectrum(f, d)
    length = None
    m = n
    if kind in ("log", "other"):
        length = n / fs
    elif kind == "linear_to_nyquist":
        ctx.need(abs((fs / (f[1] - f[0])) % 1 - 0.5) > 1e-3)
        m = int(fs / (f[1] - f[0]) + 0.5)
    sg = s.to_signal(fs, length)
    ctx.equal("bands_length", sg.length_samples, m)
    F = np.fft.rfftfreq(m, 1 / fs)
    inside = (F >= f[0] * (1 + 1e-9)) & (F <= f[-1] * (1 - 1e-9))
    outside = (F < f[0] * (1 - 1e-9)) | (F > f[-1] * (1 + 1e-9))
    X = np.fft.rfft(sg.time_data, axis=0)
    inside[0] = False
    if m % 2 == 0:
        inside[-1] = False
    ref = PchipInterpolator(f, np.abs(d), axis=0)(F[inside]) * np.exp(1j * PchipInterpolator(f, np.unwrap(np.angle(d), axis=0), axis=0)(F[inside]))
    ctx.close("bands_inside", X[inside], ref, 1e-7, scale=np.max(np.abs(d)))
    ctx.close("bands_outside", X[outside], np.zeros((np.sum(outside), c)), 1e-9, scale=np.max(np.abs(d)))


def smoothing(ctx):
    s, f, d, co = make(ctx, n=ctx.int("nb", 30, 250), coh=False)
    frac = ctx.pick("frac", [1, 3, 6, 12])
    w = ctx.pick("win", [dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Boxcar])
    cplx = np.iscomplexobj(d)
    e = ctx.pick("edges", EDG)
    s.set_interpolator_parameters(ctx.pick("dom", DOM[:2]), IS.Linear, e)
    other = s.frequency_vector_type == FS.Other
    fr = f
    out = s.copy().apply_octave_smoothing(frac, w)
    if other:
        fr = out.frequency_vector_hz
        ctx.ok("smooth_linear", out.frequency_vector_type == FS.Linear, f"{out.frequency_vector_type}")
        ctx.close("smooth_range", fr[[0, -1]], f[[0, -1]], 1e-9)
        ctx.ok("smooth_1hz", abs(fr[1] - fr[0] - 1) < 0.2 or f[-1] - f[0] < 8, f"{fr[1] - fr[0]}")
        base = s.copy().resample(fr)
    else:
        ctx.equal("smooth_f", out.frequency_vector_hz, f)
        base = s
    b = base.spectral_data
    m = np.abs(b)
    o = np.abs(out.spectral_data)
    ctx.equal("smooth_shape", out.spectral_data.shape, b.shape)
    ctx.ok("smooth_kind", out.is_complex == cplx)
    ctx.ok("smooth_bounds", np.all(o <= np.max(m, 0) * (1 + 1e-9)) and np.all(o >= np.min(m, 0) * (1 - 1e-9)))
    # the magnitude is smoothed as that of a magnitude spectrum and linearly
    mag = dsp.Spectrum(fr, m).apply_octave_smoothing(frac, w)
    ctx.close("smooth_magnitude", o, mag.spectral_data, 1e-9, scale=np.max(m))
    flat = dsp.Spectrum(fr, np.full_like(m, 0.7)).apply_octave_smoothing(frac, w)
    ctx.close("smooth_flat", flat.spectral_data, np.full_like(m, 0.7), 1e-9)
    if s.frequency_vector_type != FS.Logarithmic:
        return
    m2 = np.abs(ctx.normal(*m.shape))
    sm2 = dsp.Spectrum(fr, m2).apply_octave_smoothing(frac, w).spectral_data
    sm3 = dsp.Spectrum(fr, m + 2 * m2).apply_octave_smoothing(frac, w).spectral_data
    ctx.close("smooth_linearity", sm3, mag.spectral_data + 2 * sm2, 1e-9, scale=np.max(sm3))
    if cplx:
        # a linear phase stays close to itself away from the edges, so a constant one exactly
        ph = ctx.uniform("phase", -3, 3)
        sc = dsp.Spectrum(fr, m * np.exp(1j * ph)).apply_octave_smoothing(frac, w)
        ctx.close("smooth_phase", sc.spectral_data, mag.spectral_data * np.exp(1j * ph), 1e-9, scale=np.max(m))


def smooth_width(ctx):
    """The step response of the smoothing has the width of the octave fraction."""
    frac = ctx.pick("frac", [1, 2, 3, 6])
    w, p25 = ctx.pick("win", [(dsp.Window.Boxcar, 0.75), (dsp.Window.Hann, 0.909)])
    if ctx.flag("log"):
        fr = 50 * 2 ** (np.arange(400) / 60)
    else:
        df = ctx.uniform("df", 0.5, 20)
        fr = df * (np.arange(3000) + ctx.pick("start", [0, 1, 100, 1000, 5000]))
    k = int(np.searchsorted(fr, np.sqrt(max(fr[0], fr[-1] / 50) * fr[-1])))
    ctx.need(abs(np.log2(fr[k] / fr[0] if fr[0] else 99)) > 0.5 / frac and np.log2(fr[-1] / fr[k]) > 0.5 / frac)
    p = 0.5 + 0.5 * (np.arange(len(fr)) >= k)[:, None] * np.ones((1, 2))
    sm = (dsp.Spectrum(fr, p).apply_octave_smoothing(frac, w).spectral_data[:, 1] - 0.5) * 2
    ok = fr > 0
    at = lambda o: np.interp(np.log2(fr[k - 1] * fr[k]) / 2 + o / frac, np.log2(fr[ok]), sm[ok])
    ctx.close("width", np.array([at(-0.25), at(0), at(0.25)]), [1 - p25, 0.5, p25], 0, atol=0.07)
    ctx.close("support", np.array([at(-0.6), at(0.6)]) if at(0.6) < 2 else 0, [0, 1], 0, atol=0.02)


def smooth_local(ctx):
    s, f, d, co = make(ctx, n=ctx.int("nb", 30, 250), coh=False)
    fr, frac, w = f, ctx.pick("frac", [1, 3, 6, 12]), dsp.Window.Hann
    ctx.need(s.frequency_vector_type != FS.Other)
    # locality: a peak spreads over less than the octave fraction to either side
    k = len(fr) // 2
    p = np.zeros((len(fr), 1))
    p[k] = 1.0
    sp = dsp.Spectrum(fr, p).apply_octave_smoothing(frac, w).spectral_data[:, 0]
    ok = fr > 0
    dist = np.abs(np.log2(fr[ok] / fr[k]))
    step = np.max(np.abs(np.diff(np.log2(fr[max(k - 2, 1) : k + 3])))) if k > 2 else 1
    ctx.need(np.max(sp) > 0)
    ctx.ok("smooth_local", np.all(sp[ok][dist > 1.5 / frac + 3 * step] <= 1e-3 * np.max(sp) + 1e-12), "")


def append(ctx):
    n = ctx.int("count", 2, 3)
    f = freqs(ctx, ctx.int("bins", 4, 100))
    cplx0 = ctx.flag("complex0")
    avail = ctx.flag("avail")
    parts, exp = [], []
    allc = True
    for i in range(n):
        cp = cplx0 if i == 0 else ctx.flag("cplx", 0.8) == cplx0
        fi = f if i == 0 or ctx.flag("same_f") else np.unique(np.concatenate([f[[0, -1]], ctx.rng.uniform(f[0], f[-1], len(f))]))
        c = ctx.int("ch", 1, 3)
        d = smooth_data(ctx, fi, c, cp)
        s = dsp.Spectrum(fi, d)
        dom, sc, e = interp(ctx, s, cp, dom=None if ctx.flag("anydomain") else ID.Power)
        parts.append(s)
        allc &= cp
    as_c = cplx0 and avail
    if as_c and not allc:
        ctx.raises("append_mixed", lambda: dsp.append_spectra(parts, avail))
        return
    exp = [p.get_interpolated_spectrum(f, ST.Complex if as_c else ST.Magnitude) for p in parts]
    out = dsp.append_spectra(parts, avail)
    e = np.concatenate(exp, 1)
    ctx.equal("append_f", out.frequency_vector_hz, f)
    ctx.ok("append_kind", out.is_complex == as_c)
    ctx.close("append_data", out.spectral_data, e, 1e-12, scale=np.max(np.abs(e)))
    d0 = parts[0].spectral_data
    ctx.close("append_first", out.spectral_data[:, : d0.shape[1]], d0 if as_c else np.abs(d0), 1e-9, scale=np.max(np.abs(d0)))
    for p in parts[1:]:
        if p.number_frequency_bins == len(f) and np.array_equal(p.frequency_vector_hz, f):
            k = sum(q.number_of_channels for q in parts[: parts.index(p)])
            d1 = p.spectral_data
            ctx.close("append_same_f", out.spectral_data[:, k : k + d1.shape[1]], d1 if as_c else np.abs(d1), 1e-9, scale=np.max(np.abs(d1)))


def difference(ctx):
    cplx_out = ctx.flag("complex_out")
    dyn = ctx.pick("dyn", [None, 100.0, 20.0, -40.0])
    en = ctx.flag("energy")
    if ctx.flag("signals"):
        fs, n, c = ctx.pick("fs", gen.FS), ctx.int("n", 64, 600), ctx.int("ch", 1, 3)
        x = [ctx.normal(n, c) * 0.1 for _ in range(2)]
        objs = [dsp.Signal(None, v, fs) for v in x]
        for o in objs:
            o.set_spectrum_parameters(method=dsp.SpectrumMethod.FFT, pad_to_fast_length=False, scaling=dsp.SpectrumScaling.FFTBackward)
        f = np.fft.rfftfreq(n, 1 / fs)
        d = [np.fft.rfft(v, axis=0) for v in x]
    else:
        f = freqs(ctx)
        c = ctx.int("ch", 1, 3)
        d = []
        for _ in range(2):
            v = np.abs(ctx.normal(len(f), c)) + 0.01
            d.append(v * np.exp(1j * ctx.rng.uniform(-3, 3, v.shape)) if cplx_out or ctx.flag("cplx_in") else v)
        objs = [dsp.Spectrum(f, v) for v in d]
        for o, v in zip(objs, d):
            interp(ctx, o, np.iscomplexobj(v))
    a, b = [v if cplx_out else np.abs(v) for v in d]
    if en:
        a = a / trapezoid(np.abs(a) ** 2, f, axis=0) ** 0.5
        b = b / trapezoid(np.abs(b) ** 2, f, axis=0) ** 0.5
    mb = np.abs(b)
    lim = mb if dyn is None else np.maximum(mb, np.max(mb, 0) * 10 ** (-abs(dyn) / 20))
    ctx.need(np.min(lim) > 1e-9 * np.max(lim))
    ref = a / (lim * b / mb)
    out = dsp.spectral_difference(objs[0], objs[1], 0.0, en, cplx_out, dyn)
    ctx.ok("difference_kind", out.is_complex == cplx_out)
    ctx.close("difference_f", out.frequency_vector_hz, f, 1e-12, atol=1e-9)
    ctx.close("difference", out.spectral_data, ref, 1e-7, scale=np.max(np.abs(ref)))
    if not isinstance(objs[0], dsp.Signal):
        ctx.equal("difference_pure", objs[0].spectral_data, d[0])
        ctx.equal("difference_pure", objs[1].spectral_data, d[1])
    if isinstance(objs[0], dsp.Spectrum):
        objs[0].set_interpolator_parameters(ID.Power, ctx.pick("scheme", [IS.Linear, IS.Pchip]), IE.Extend)
    same = dsp.spectral_difference(objs[0], objs[0], ctx.pick("smooth", [0.0, 3.0]), en, cplx_out, None)
    ctx.close("difference_self", same.spectral_data, np.ones_like(same.spectral_data), 1e-6)


def sources(ctx):
    """Spectra of filters and filter banks; warping."""
    fs = ctx.pick("fs", [16000, 44100, 48000])
    f = np.sort(ctx.rng.uniform(10, fs * 0.49, ctx.int("bins", 3, 60)))
    ctx.need(np.min(np.diff(f)) > 0)
    filts = [gen.random_filter(ctx, fs) for _ in range(ctx.int("nf", 1, 3))]
    cplx = ctx.flag("complex")
    H = []
    for q in filts:
        z = np.exp(-2j * np.pi * f / fs)
        q2 = q.get_coefficients(dsp.FilterCoefficientsType.Sos if q.is_iir else dsp.FilterCoefficientsType.Ba)
        secs = q2 if q.is_iir else [np.concatenate([q2[0], [1.0], np.zeros(len(q2[0]) - 1)])]
        h = np.ones(len(f), complex)
        for r in secs:
            m = len(r) // 2
            h = h * np.polyval(r[:m][::-1], z) / np.polyval(r[m:][::-1], z)
        H.append(h)
    s = dsp.Spectrum.from_filter(f, filts[0], cplx)
    ref = H[0][:, None] if cplx else np.abs(H[0])[:, None]
    ctx.close("from_filter", s.spectral_data, ref, 1e-6, scale=np.max(np.abs(ref)))
    ctx.equal("from_filter_f", s.frequency_vector_hz, f)
    fb = dsp.FilterBank(filts)
    mode = ctx.pick("mode", list(dsp.FilterBankMode))
    h = np.stack(H, 1)
    ref = {"Parallel": h, "Sequential": np.prod(h, 1)[:, None], "Summed": np.sum(h, 1)[:, None]}[mode.name]
    s = dsp.Spectrum.from_filterbank(f, fb, mode, cplx)
    ref = ref if cplx else np.abs(ref)
    ctx.close(f"from_bank_{mode.name}", s.spectral_data, ref, 1e-6, scale=np.max(np.abs(ref)) + 1e-9)
    # warping moves the frequencies by the all-pass phase and leaves the data
    lam = ctx.uniform("lam", -0.9, 0.9)
    d = s.spectral_data.copy()
    s.warp(lam, fs)
    z = np.exp(-2j * np.pi * f / fs)
    ap = -np.unwrap(np.angle((z + lam) / (1 + lam * z)))
    w = s.frequency_vector_hz
    ctx.equal("warp_data", s.spectral_data, d)
    ctx.ok("warp_monotone", np.all(np.diff(w) > 0))
    ref = ap * fs / 2 / np.pi
    inv = -np.unwrap(np.angle((z - lam) / (1 - lam * z))) * fs / 2 / np.pi
    ctx.ok("warp_map", np.allclose(w, inv, rtol=1e-7, atol=1e-6) or np.allclose(w, ref, rtol=1e-7, atol=1e-6), f"{w[:3]} {inv[:3]} {ref[:3]}")
    if abs(lam) > 0.05:
        # negative factors stretch the low frequencies
        ctx.ok("warp_direction", (w[0] > f[0]) == (lam < 0), f"{lam} {f[0]} {w[0]}")
    ctx.ok("warp_inverse", np.allclose(dsp.Spectrum(w, d).warp(-lam, fs).frequency_vector_hz, f, rtol=1e-6, atol=1e-6))


def refusals(ctx):
    f = freqs(ctx, ctx.int("bins", 3, 30))
    n = len(f)
    c = ctx.int("ch", 1, 40)
    d = np.abs(ctx.normal(n, c)) + 0.1
    s = dsp.Spectrum(f, d)
    ctx.equal("orientation", s.spectral_data, d)
    if c != n:
        ctx.equal("orientation_transposed", dsp.Spectrum(f, d.T.copy()).spectral_data, d)
    ctx.equal("vector", dsp.Spectrum(f, list(d[:, 0])).spectral_data, d[:, :1])
    for k, bad in {
        "short": lambda: dsp.Spectrum(f, d[:-1, :1]), "negative": lambda: dsp.Spectrum(f, -d),
        "descending": lambda: dsp.Spectrum(f[::-1], d), "repeated": lambda: dsp.Spectrum(np.append(f[:-1], f[-2]), d),
        "negative_f": lambda: dsp.Spectrum(f - f[-1], d), "complex_f": lambda: dsp.Spectrum(f + 1j, d),
        "complex_out": lambda: s.get_interpolated_spectrum(f, ST.Complex),
        "complex_domain": lambda: s.set_interpolator_parameters(ctx.pick("cd", DOM[2:])),
        "coherence_shape": lambda: s.set_coherence(np.ones((n + 1, c))),
        "coherence_complex": lambda: s.set_coherence(np.ones((n, c)) + 1j),
        "trim_empty": lambda: s.trim(f[-1], f[0]),
        "warp": lambda: s.warp(1.0, int(f[-1] * 2) + 2), "warp_fs": lambda: s.warp(0.5, int(f[-1] * 1.5) + 1 if f[-1] > 4 else 0),
    }.items():
        ctx.raises(f"refused_{k}", bad)
        state(ctx, f"after_{k}", s, f, d, None)
    t = {"Linear": f[0] + np.arange(n) * 7.3, "Logarithmic": 20 * 1.3 ** np.arange(n), "Other": np.arange(1, n + 1) ** 3.0}
    if n > 5:
        k = int(ctx.rng.integers(1, n - 3))
        e = np.where(np.arange(n) == k, 1 + ctx.logu("moved", 1e-4, 0.02), 1)
        ctx.equal("spacing_almost", [dsp.Spectrum(v, d).frequency_vector_type.name for v in (7.3 * (k + np.arange(n) * e + 1), 20 * 1.3 ** np.arange(n) * e)], ["Other"] * 2)
    for k, v in t.items():
        if n > 3:
            ctx.equal("spacing", dsp.Spectrum(v, d).frequency_vector_type.name, k)


MORE = 4  # times the number of cases below in the quick tier
FAMILIES = [
    Family("own", own, 300, 6000),
    Family("between", between, 300, 6000),
    Family("outside", outside, 300, 6000),
    Family("trim", trim, 300, 6000),
    Family("channels", channels, 300, 6000),
    Family("scale", scale, 150, 3000),
    Family("resample", resample, 250, 5000),
    Family("signal_roundtrip", signal_roundtrip, 150, 3000),
    Family("to_signal_interp", to_signal_interp, 60, 1000),
    Family("to_signal_bands", to_signal_bands, 150, 3000),
    Family("smoothing", smoothing, 100, 1500),
    Family("smooth_width", smooth_width, 60, 1000),
    Family("smooth_local", smooth_local, 60, 1000),
    Family("append", append, 200, 4000),
    Family("difference", difference, 200, 4000),
    Family("sources", sources, 150, 3000),
    Family("refusals", refusals, 80, 1500),
]
