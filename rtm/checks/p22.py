"""P22: editing impulse responses."""

import numpy as np
import scipy.signal as sig
import dsptoolbox as dsp
from dsptoolbox import transfer_functions as tf
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff
from rtm.checks.p14 import definite

PROPERTY = "P22"
W = [dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Blackman, dsp.Window.Cosine, dsp.Window.Boxcar]
SMOOTH = list(tf.SmoothingDomain)


def ir(ctx, n=None, c=None, peak=None, level=1.0):
    """Responses with one unambiguous peak per channel."""
    fs = ctx.pick("fs", gen.FS)
    n = n or ctx.int("n", 40, 3000)
    c = c or ctx.int("ch", 1, 4)
    where = peak or ctx.pick("where", ["start", "any", "end"])
    x = np.zeros((n, c))
    p = np.zeros(c, int)
    for k in range(c):
        lo, hi = {"start": (0, max(1, n // 8)), "any": (0, n), "end": (n - max(1, n // 8), n)}[where]
        p[k] = ctx.rng.integers(lo, hi)
        x[:, k] = ctx.normal(n) * 0.1 * np.exp(-np.abs(np.arange(n) - p[k]) / (n / 5))
        x[:, k] = np.clip(x[:, k], -0.4, 0.4)
        x[p[k], k] = ctx.rng.uniform(0.5, 0.99) * ctx.rng.choice([-1, 1])
    x *= level
    out = dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=ctx.flag("constrain", 0.3) if level == 1 else False)
    if ctx.flag("settings", 0.4):
        out.set_spectrum_parameters(**gen.random_spectrum_params(ctx, n, gen.SM.FFT))
    return out, x, p


def flank(w, n, rising):
    if n == 0:
        return np.zeros(0)
    full = sig.get_window(w.to_scipy_format(), 2 * n, True)
    return full[:n] if rising else full[n:]


def placed(x, start, T):
    """T samples from position start (negative: zeros in front)."""
    out = np.zeros(T)
    a, b = max(start, 0), min(start + T, len(x))
    if b > a:
        out[a - start : b - start] = x[a:b]
    return out


def window(ctx):
    s, x, p = ir(ctx)
    n, c = x.shape
    T = int(ctx.rng.integers(20, 2 * n)) if ctx.flag("long") else int(ctx.rng.integers(20, max(n, 21)))
    ctx.note(f"T={T}")
    cp = ctx.pick("constant", [0.0, 0.3, 0.5, 0.75, 0.9])
    ratio = ctx.pick("ratio", [0.0, 0.1, 0.5, 1.0, 1.5, 2.0])
    off = int(ctx.rng.integers(0, int(cp * T) + 1)) if ctx.flag("offset") else 0
    adaptive = ctx.flag("adaptive")
    at_start = ctx.flag("at_start", 0.7)
    wt = [ctx.pick("w1", W), ctx.pick("w2", W)] if ctx.flag("two") else ctx.pick("w", W)
    ws = wt if isinstance(wt, list) else [wt, wt]
    total = int((1 - cp) * T)
    left = int(total * 0.5 * ratio)
    right = max(total - left, 0)
    b = snap(s)
    args = dict(adaptive=adaptive, constant_percentage=cp, window_type=wt, at_start=at_start, offset_samples=off, left_to_right_flank_length_ratio=ratio)
    if adaptive:
        # is there room for a window at all?
        for k in range(c):
            l = min(left, max(0, p[k] - off))
            length = min(T, n - max(p[k] - off - left, 0))
            if l + off > length - right and l + off > length - 1:
                ctx.note(f"no_room={True}")
                return
    out, start = tf.window_ir(s, T, **args)
    ctx.ok("input_kept", diff(b, snap(s)) is None, str(diff(b, snap(s))))
    ctx.ok("type", type(out) is dsp.ImpulseResponse and out.sampling_rate_hz == s.sampling_rate_hz and out.constrain_amplitude == s.constrain_amplitude)
    ctx.ok("shape", out.time_data.shape == (T, c) and out.window.shape == (T, c) and len(start) == c)
    ctx.event("windowed", c)
    for k in range(c):
        if adaptive:
            l = left if p[k] - off - left >= 0 else max(0, p[k] - off)
            st = max(p[k] - off - left, 0)
        else:
            l, st = left, p[k] - off - left
        seg = placed(x[:, k], st, T)
        w = out.window[:, k]
        ctx.close("window_applied", out.time_data[:, k], seg * w, 1e-12, atol=1e-13)
        if st > 0:
            ctx.equal("start", int(start[k]), int(st))
        else:
            ctx.equal("start_padded", abs(int(start[k])), abs(int(st)))
        ctx.ok("window_range", np.all(w >= -1e-12) and np.all(w <= 1 + 1e-12))
        # rising flank
        ref = flank(ws[0], l, True) if at_start else np.ones(l)
        lead = max(-st, 0) if not adaptive else 0
        ref[:lead] = 0
        ctx.close("left_flank", w[:l], ref[:T], 0, atol=1e-12)
        if not adaptive:
            ref = np.ones(T - l - right)
            m = np.concatenate([np.ones(l), ref, flank(ws[1], right, False)])
            m[:lead] = 0
            end = n - st
            if end < T:
                m[end:] = 0
            ctx.close("flat_and_right", w[l:], m[l:], 0, atol=1e-12)
        else:
            length = min(T, n - st)
            r = right if l + off <= length - right else max(length - l - off - 1, 0)
            m = np.concatenate([np.ones(length - l - r), flank(ws[1], r, False), np.zeros(T - length)])
            ctx.close("adaptive_flat_and_right", w[l:], m, 0, atol=1e-12)
        # the peak stands where stated
        i = l + off if p[k] - off >= 0 or not adaptive else p[k] - st
        if i < T:
            ctx.ok("peak_position", abs(seg[i]) == abs(x[p[k], k]), f"{i} {np.argmax(np.abs(seg))}")


def tukey(ctx):
    s, x, p = ir(ctx)
    n, c = x.shape
    fs = s.sampling_rate_hz
    ln = ctx.int("left", 0, n)
    rn = int(ctx.rng.integers(0, n - ln + 1))
    lt = None if ctx.flag("no_left", 0.2) else ln / fs
    rt = None if ctx.flag("no_right", 0.2) else rn / fs
    if lt is None and rt is None:
        ctx.raises("tukey_none", lambda: tf.window_ir_tukey(s, None, None))
        return
    wt = ctx.pick("w", W)
    b = snap(s)
    out = tf.window_ir_tukey(s, lt, rt, wt)
    ctx.ok("tukey_input_kept", diff(b, snap(s)) is None)
    w = np.ones(n)
    if lt is not None and ln:
        w[:ln] *= flank(wt, ln, True)
    if rt is not None and rn:
        w[n - rn :] *= flank(wt, rn, False)
    ctx.close("tukey", out.time_data, x * w[:, None], 1e-12, atol=1e-14)
    ctx.close("tukey_window", out.window, np.repeat(w[:, None], c, 1), 1e-12)
    ctx.raises("tukey_overlap", lambda: tf.window_ir_tukey(s, (n * 0.7 + 2) / fs, (n * 0.5 + 2) / fs))


def centered(ctx):
    s, x, p = ir(ctx)
    n, c = x.shape
    T = int(ctx.rng.integers(9, 2 * n))
    ctx.note(f"T={T}")
    wt = ctx.pick("w", W)
    b = snap(s)
    out, start = tf.window_centered_ir(s, T, wt)
    ctx.ok("centered_input_kept", diff(b, snap(s)) is None)
    ctx.ok("centered_shape", out.time_data.shape == (T, c) and out.window.shape == (T, c))
    half = T // 2
    full = sig.get_window(wt.to_scipy_format(), 2 * half + 1, False)
    for k in range(c):
        st = int(start[k])
        ctx.close("centered_applied", out.time_data[:, k], placed(x[:, k], st, T) * out.window[:, k], 1e-12, atol=1e-14)
        q = p[k] - st
        ctx.ok("centered_peak_inside", 0 <= q < T, f"{q}")
        w = out.window[:, k]
        for j in range(T):
            d = j - q + half
            if 0 <= d < len(full) and abs(w[j] - full[d]) > 1e-9:
                ctx.fail("centered_window", f"value {w[j]} instead of {full[d]} at {j - q} from the peak")
                break
        if half <= p[k] < n - half - 1 and T <= n:
            ctx.ok("centered_middle", q == half, f"{q} {half}")
        ctx.ok("centered_peak_kept", abs(out.time_data[q, k] - x[p[k], k]) < 1e-12)


def decay(ctx, n, fs, c, floor_db):
    """Exponentially decaying noise with a noise floor; also the knee."""
    x = np.zeros((n, c))
    knee = np.zeros(c)
    for k in range(c):
        rt = ctx.rng.uniform(0.25, 0.5) * n / fs / 60 * abs(floor_db) * 1.2
        rt = 60 * (n / fs) * ctx.rng.uniform(0.35, 0.6) / abs(floor_db)
        d0 = int(ctx.rng.integers(0, n // 10))
        t = (np.arange(n) - d0) / fs
        e = np.where(t >= 0, 10 ** (-3 * t / rt), 0)
        x[:, k] = ctx.normal(n) * 0.2 * e + ctx.normal(n) * 0.2 * 10 ** (floor_db / 20)
        x[d0, k] = 1.0 * ctx.rng.choice([-1, 1])
        knee[k] = d0 + abs(floor_db) / 60 * rt * fs
    return x, knee


def trim(ctx):
    fs = ctx.pick("fs", [8000, 16000, 22050, 44100])
    n = int(fs * ctx.rng.uniform(0.8, 2.5))
    ctx.note(f"n={n}")
    c = ctx.int("ch", 1, 3)
    x, knee = decay(ctx, n, fs, c, -ctx.rng.uniform(45, 80))
    g = ctx.logu("gain", 1e-3, 1e3)
    s = dsp.ImpulseResponse(None, x * g, fs, constrain_amplitude=False)
    off = ctx.pick("off", [0.0, 0.005, 0.02, 0.3, None])
    peak = np.argmax(np.abs(x), 0)
    ons = len(s) if off is None else int(off * fs + 0.5)
    b = snap(s)
    stops = []
    for k in range(c):
        out, a, e = tf.trim_ir(s, k, off)
        ctx.ok("trim_input_kept", diff(b, snap(s)) is None)
        ctx.equal("trim_start", int(a), int(max(peak[k] - 1 - ons, 0)))
        ctx.ok("trim_slice", np.array_equal(out.time_data[:, 0], x[a:e, k] * g))
        ctx.ok("trim_meta", type(out) is dsp.ImpulseResponse and out.number_of_channels == 1 and out.sampling_rate_hz == fs)
        r = (e - peak[k]) / (knee[k] - peak[k])
        ctx.event("trim", 1)
        ctx.note(f"r{k}={round(float(r), 2)}")
        ctx.ok("trim_end", 0.15 < r < 1.6, f"stop at {r:.2f} of the decay")
        stops.append(int(e))
        other = dsp.ImpulseResponse(None, x * 0.37 * ctx.rng.choice([-1, 1]), fs, constrain_amplitude=False)
        _, a2, e2 = tf.trim_ir(other, k, off)
        ctx.ok("trim_gain_free", (a2, e2) == (a, e), f"{(a, e)} {(a2, e2)}")
    out, a, e = tf.trim_ir(s, None, off)
    ctx.equal("trim_all_start", int(a), int(max(np.min(peak) - 1 - ons, 0)))
    ctx.equal("trim_all_stop", int(e), max(stops))
    ctx.ok("trim_all_slice", np.array_equal(out.time_data, x[a:e] * g))


def average(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 200, 2000)
    c = ctx.int("ch", 2, 5)
    g = ctx.rng.uniform(0.3, 2, c)
    ne = ctx.flag("energy")
    kind = ctx.pick("kind", ["equal_spectrum", "delayed_time", "spectrum"])
    if kind == "delayed_time":
        m = n // 3
        base = np.zeros(n)
        base[0] = 1
        base[1:m] = ctx.normal(m - 1) * 0.05 * np.exp(-np.arange(m - 1) / (m / 8))
        d = ctx.rng.integers(0, n // 3, c)
        x = np.stack([np.roll(base, int(q)) for q in d], 1) * g
    else:
        base = ctx.normal(n) * 0.02 * np.exp(-np.arange(n) / (n / 6))
        base[0] = 1
        x = np.stack([base] * c, 1)
        if kind == "spectrum":
            x += ctx.normal(n, c) * 0.01 * np.exp(-np.arange(n) / (n / 6))[:, None]
        x *= g
    s = dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
    if ctx.flag("settings"):
        s.set_spectrum_parameters(**gen.random_spectrum_params(ctx, n, gen.SM.FFT))
    b = snap(s)
    out = tf.average_irs(s, kind == "delayed_time", ne)
    ctx.ok("average_input_kept", diff(b, snap(s)) is None, str(diff(b, snap(s))))
    ctx.ok("average_shape", out.time_data.shape == (n, 1) and out.sampling_rate_hz == fs)
    y = x.copy()
    if ne:
        e = np.sum(x**2, 0)
        y *= np.sqrt(e[0] / e)
    if kind == "delayed_time":
        ref = np.roll(base, int(np.max(d))) * np.mean(g if not ne else np.full(c, g[0]))
        ctx.close("average_time", out.time_data[:, 0], ref, 0, atol=2e-2 * np.max(np.abs(ref)))
    else:
        Y = np.fft.rfft(y, axis=0)
        R = np.mean(np.abs(Y), 1) * np.exp(1j * np.mean(np.unwrap(np.angle(Y), axis=0), 1))
        ctx.close("average_spectrum", out.time_data[:, 0], np.fft.irfft(R, n), 1e-9, scale=1.0)
        if kind == "equal_spectrum":
            ctx.close("average_of_equal", out.time_data[:, 0], base * np.mean(g if not ne else np.full(c, g[0])), 1e-9, scale=1.0)


def combine(ctx):
    fs = ctx.pick("fs", [16000, 44100, 48000])
    n = ctx.int("n", 600, 3000)
    c = ctx.int("ch", 1, 3)
    x = np.zeros((n, c))
    p = np.zeros(c, int)
    pol = ctx.rng.choice([-1.0, 1.0], c)
    for k in range(c):
        p[k] = ctx.rng.integers(n // 4, n // 2)
        m = n - p[k]
        x[p[k] :, k] = ctx.normal(m) * 0.04 * np.exp(-np.arange(m) / 40)
        x[p[k], k] = pol[k] * ctx.rng.uniform(0.6, 1)
    s = dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
    f0 = ctx.logu("f0", fs / 100, fs / 8)
    lower = ctx.flag("lower")
    order = ctx.pick("order", [4, 8])
    norm = ctx.pick("norm", [None, "energy", "peak", -6.0, 3.0])
    b = snap(s)
    out = tf.combine_ir_with_dirac(s, f0, lower, order, norm)
    ctx.ok("combine_input_kept", diff(b, snap(s)) is None)
    ctx.close("combine_peak", np.max(np.abs(out.time_data)), 1.0, 1e-9)
    fb = dsp.filterbanks.linkwitz_riley_crossovers([f0], order, fs)
    xn = x / np.max(np.abs(x))
    d = np.zeros((n, c))
    lat = tf.find_ir_latency(dsp.ImpulseResponse(None, xn.copy(), fs), False)
    for k in range(c):
        ctx.ok("latency", abs(lat[k] - p[k]) < 0.6, f"{lat[k]} {p[k]}")
        t = np.arange(n) - lat[k]
        d[:, k] = np.sinc(t)
    xi = fb.filter_signal(dsp.ImpulseResponse(None, xn, fs, constrain_amplitude=False), zero_phase=True)
    di = fb.filter_signal(dsp.ImpulseResponse(None, d, fs, constrain_amplitude=False), zero_phase=True)
    a, e = (xi.bands[0], di.bands[1]) if lower else (xi.bands[1], di.bands[0])
    a, e = a.time_data, e.time_data
    if norm == "energy":
        e = e * np.sqrt(np.mean(a**2, 0) / np.mean(e**2, 0))
    elif norm == "peak":
        e = e * np.max(np.abs(a), 0) / np.max(np.abs(e), 0)
    elif norm is not None:
        e = e * 10 ** (norm / 20)
    r = a + e * pol
    ctx.close("combine", out.time_data, r / np.max(np.abs(r)), 0, atol=2e-2)
    for k in range(c):
        alone = tf.combine_ir_with_dirac(s.get_channels(k), f0, lower, order, norm)
        q = out.time_data[:, k]
        u = alone.time_data[:, 0]
        ctx.close("combine_channels", q / np.max(np.abs(q)), u / np.max(np.abs(u)), 0, atol=2e-2 if norm is None or isinstance(norm, float) else 2e-3) if isinstance(norm, str) else None


def convert(ctx):
    s, x, p = ir(ctx, level=ctx.pick("level", [1.0, 1e-3, 30.0]))
    n, c = x.shape
    b = snap(s)
    x = s.time_data.copy()
    fb = tf.ir_to_filter(s, None)
    ctx.ok("to_filter_bank", type(fb) is dsp.FilterBank and len(fb.filters) == c)
    for k in range(c):
        ctx.equal("to_filter", fb.filters[k].ba[0], x[:, k])
        ctx.ok("to_filter_fir", not fb.filters[k].is_iir and fb.filters[k].sampling_rate_hz == s.sampling_rate_hz)
        f = tf.ir_to_filter(s, k)
        ctx.ok("to_single_filter", type(f) is dsp.Filter and np.array_equal(f.ba[0], x[:, k]))
        back = tf.filter_to_ir(f)
        ctx.ok("from_filter", np.array_equal(back.time_data[:, 0], x[:, k]) and back.sampling_rate_hz == s.sampling_rate_hz)
    back = tf.filter_to_ir(fb)
    ctx.ok("from_bank", type(back) is dsp.ImpulseResponse and np.array_equal(back.time_data, x))
    ctx.ok("convert_input_kept", diff(b, snap(s)) is None)
    # different lengths are filled with zeros
    h = [ctx.normal(int(q)) for q in ctx.rng.integers(2, 60, 3)]
    bank = dsp.FilterBank([dsp.Filter.from_ba(q, [1.0], 8000) for q in h])
    r = tf.filter_to_ir(bank)
    m = max(len(q) for q in h)
    ctx.ok("from_uneven_bank", r.time_data.shape == (m, 3) and all(np.array_equal(r.time_data[:, i], np.pad(q, (0, m - len(q)))) for i, q in enumerate(h)))
    bank.add_filter(dsp.Filter.from_ba([1.0], [1.0, -0.5], 8000))
    ctx.raises("iir_refused", lambda: tf.filter_to_ir(bank))


def phase_filters(ctx):
    """Minimum- and linear-phase filters keep the magnitude."""
    fs = ctx.pick("fs", [16000, 48000])
    n = ctx.int("n", 128, 700)
    c = ctx.int("ch", 1, 3)
    t = np.arange(n)
    x = np.zeros((n, c))
    for k in range(c):
        x[:, k] = ctx.normal(n) * 0.02 * np.exp(-t / (n / 20))
        x[:, k] = np.roll(x[:, k], n // 8)
        x[n // 8, k] = 1
    x *= ctx.pick("level", [1.0, 0.01, 20.0])
    s = dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
    if ctx.flag("settings"):
        s.set_spectrum_parameters(**gen.random_spectrum_params(ctx, n, gen.SM.FFT))
    b = snap(s)
    mode = ctx.pick("mode", ["min", "lin"])
    fb = tf.ir_to_filter(s, None, mode)
    ctx.ok("phase_input_kept", diff(b, snap(s)) is None)
    w = np.linspace(0.02, np.pi - 0.02, 300)
    for k in range(c):
        h = fb.filters[k].ba[0]
        A = np.abs(sig.freqz(h, 1, w)[1])
        R = np.abs(sig.freqz(x[:, k], 1, w)[1])
        ctx.close(f"{mode}_magnitude", A, R, 0.15 if mode == "lin" else 0.02, scale=np.max(R))
        if mode == "lin":
            e = h[: len(h)]
            q = int(np.argmax(np.abs(e)))
            ctx.ok("lin_late", q > 0)
            m = min(q, len(e) - 1 - q)
            ctx.event("lin")
        else:
            ctx.ok("min_early", np.argmax(np.abs(h)) == 0)


def fdw(ctx):
    s, x, p = ir(ctx, n=ctx.int("n", 60, 500))
    n, c = x.shape
    fs = s.sampling_rate_hz
    cyc = ctx.pick("cycles", [1, 3, 10, 40])
    end = ctx.pick("end", [-50.0, -20.0, -80.0])
    b = snap(s)
    x = s.time_data.copy()
    sp = tf.window_frequency_dependent(s, cyc, end)
    ctx.ok("fdw_input_kept", diff(b, snap(s)) is None)
    f = np.fft.rfftfreq(n, 1 / fs)
    ctx.close("fdw_f", sp.frequency_vector_hz, f, 1e-12)
    ref = np.zeros((len(f), c), complex)
    m = np.arange(n)
    for i in range(1, len(f)):
        L = np.round(fs / f[i] * cyc)
        for k in range(c):
            w = 10 ** (end / 20 * ((m - p[k]) / L) ** 2)
            ref[i, k] = np.sum(x[:, k] * w * np.exp(-2j * np.pi * f[i] / fs * m))
    ctx.close("fdw", sp.spectral_data, ref, 1e-9, scale=np.max(np.abs(ref)))


def harmonics(ctx):
    """Impulses at the theoretical positions are found in their pieces."""
    fs = ctx.pick("fs", [8000, 16000, 48000])
    T = ctx.rng.uniform(0.5, 2)
    ctx.note(f"T={T}")
    f0 = ctx.logu("f0", 20, 100)
    f1 = ctx.rng.uniform(0.3, 0.5) * fs
    nh = ctx.int("nh", 1, 6)
    rate = np.log2(f1 / f0) / T
    n = int(fs * T * ctx.rng.uniform(1.0, 2))
    pos = ctx.int("pos", 0, n - 1) if ctx.flag("anywhere") else ctx.int("pos2", 0, 50)
    off = ctx.pick("offset", [0.0, 0.01, 0.05, 0.2])
    tau = np.log2(np.arange(1, nh + 3)) / rate * fs
    x = ctx.normal(n) * 1e-4
    x[pos] = 0.9 * ctx.pick("polarity", [1, -1])
    amp = ctx.rng.uniform(0.05, 0.3, nh) * ctx.rng.choice([-1, 1], nh)
    for k in range(nh):
        x[(pos - int(np.round(tau[k + 1]))) % n] = amp[k]
    s = dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
    if tau[-1] >= n:
        return
    b = snap(s)
    rng = [f0, f1] if ctx.flag("sorted", 0.7) else [f1, f0]
    out = tf.harmonics_from_chirp_ir(s, rng, T, nh, off)
    ctx.ok("harmonics_input_kept", diff(b, snap(s)) is None)
    ctx.ok("harmonics_count", len(out) == nh and all(type(o) is dsp.ImpulseResponse and o.sampling_rate_hz == fs for o in out))
    r = np.roll(x, -pos + 1)
    cut = lambda i: n - tau[i] - (tau[i + 1] - tau[i]) * off if i < len(tau) - 1 else None
    hi = n
    at = n - tau[0] - (tau[1] - tau[0]) * off
    prev = None
    for k in range(nh):
        L = len(out[k])
        y = out[k].time_data[:, 0]
        # the piece is a slice of the response, found near its position
        want = n - tau[k + 1] - (tau[k + 2] - tau[k + 1]) * off
        found = None
        for a in range(int(want) - 3, int(want) + 4):
            if a >= 0 and a + L <= n and np.array_equal(r[a : a + L], y):
                found = a
        ctx.ok("harmonic_position", found is not None, f"harmonic {k + 2}")
        if found is None:
            continue
        ctx.event("harmonic")
        top = n - tau[k] - (tau[k + 1] - tau[k]) * off
        ctx.ok("harmonic_length", abs(found + L - top) <= 3, f"{found + L} {top}")
        if prev is not None:
            ctx.ok("harmonics_exclusive", found + L == prev, f"{found + L} {prev}")
        prev = found
        if (tau[k + 2] - tau[k + 1]) * off > 4 or off == 0:
            i = int(np.argmax(np.abs(y)))
            ctx.ok("harmonic_inside", np.any(np.abs(y - amp[k]) < 1e-9) or off > 0 and False or off == 0, f"harmonic {k + 2}")


def distortion(ctx):
    """Energies of known harmonics."""
    fs = ctx.pick("fs", [8000, 16000, 48000])
    nh = ctx.int("nh", 1, 5)
    n = ctx.int("n", 64, 600)
    a = ctx.rng.uniform(0.02, 0.5, nh + 1) * ctx.rng.choice([-1, 1], nh + 1)
    a[0] = ctx.rng.uniform(0.6, 1.0)
    a = a * ctx.pick("level", [1.0, 5.0])
    how = ctx.pick("how", ["list", "ir"])
    hi = fs * ctx.rng.uniform(0.3, 0.45)
    scal = ctx.pick("scaling", [gen.SS.FFTBackward, gen.SS.FFTForward, gen.SS.AmplitudeSpectrum, gen.SS.PowerSpectrum])
    if how == "list":
        lens = [n] + [int(q) for q in ctx.rng.integers(30, n, nh)]
        irs = []
        for L, g in zip(lens, a):
            q = np.zeros(L)
            q[min(3, L - 1)] = g
            irs.append(dsp.ImpulseResponse(None, q, fs, constrain_amplitude=False))
        irs[0].spectrum_scaling = gen.SS.FFTBackward
        arg = list(irs)
        b = [snap(q) for q in irs]
        rng = [20.0, hi] if ctx.flag("range") else None
        d = tf.harmonic_distortion_analysis(arg, rng, smoothing=0, generate_plot=False)
        ctx.ok("distortion_list_kept", len(arg) == nh + 1 and all(p is q for p, q in zip(arg, irs)))
        ctx.ok("distortion_inputs_kept", all(diff(p, snap(q)) is None for p, q in zip(b, irs)), str([diff(p, snap(q)) for p, q in zip(b, irs)]))
        if rng is None:
            hi = fs // 2
    else:
        T = 1.0
        f0 = 20.0
        rate = np.log2(hi / f0) / T
        N = int(fs * 2 * T)
        x = ctx.normal(N) * 1e-7
        for k in range(nh + 1):
            x[(30 - int(np.round(np.log2(k + 1) / rate * fs))) % N] = a[k]
        s = dsp.ImpulseResponse(None, x, fs, constrain_amplitude=False)
        s.spectrum_scaling = gen.SS.FFTBackward
        b = snap(s)
        d = tf.harmonic_distortion_analysis(s, [f0, hi], T, nh, 0, False)
        ctx.ok("distortion_input_kept", diff(b, snap(s)) is None)
    if ctx.flag("plot", 0.3):
        import matplotlib.pyplot as plt

        again = tf.harmonic_distortion_analysis(*((arg, rng) if how == "list" else (s, [f0, hi], T, nh)), smoothing=0, generate_plot=True)
        fig, ax = again.pop("plot")
        plt.close("all")
        ctx.ok("distortion_plot_same", set(again) == set(d) - {"plot"} and all(diff(snap(again[q]), snap(d[q])) is None for q in again), str([q for q in again if diff(snap(again[q]), snap(d[q]))]))
        curves = [(np.asarray(l.get_xdata()), np.asarray(l.get_ydata())) for l in ax.get_lines()]
        ctx.ok("distortion_curves", len(curves) == nh + 3, f"{len(curves)} {nh}")
        texts = [t.get_text() for t in ax.get_legend().get_texts()]
        ctx.equal("distortion_legend", texts, ["Fundamental"] + [f"{q + 2} Harmonic" for q in range(nh)] + ["THD", "THD+N"])
    keys = {str(k + 1) for k in range(nh + 1)} | {"thd", "thd_n", "thd_percent"}
    ctx.ok("distortion_keys", keys <= set(d), str(sorted(d)))
    tol = 1e-9 if how == "list" else 2e-2
    for k in range(nh + 1):
        sp = d[str(k + 1)]
        ctx.event("harmonic_level")
        ctx.close("harmonic_level", np.abs(sp.spectral_data[1:-1, 0]), np.full(len(sp.frequency_vector_hz) - 2, abs(a[k])), tol, scale=abs(a[k]))
        if k:
            ctx.ok("harmonic_axis", sp.frequency_vector_hz[-1] < hi / (k + 1) + 1e-9, f"{sp.frequency_vector_hz[-1]} {hi / (k + 1)}")
            ctx.ok("harmonic_axis_reach", sp.frequency_vector_hz[-1] > (hi - 2 * fs / 30) / (k + 1), f"{sp.frequency_vector_hz[-1]} {hi / (k + 1)}")
    ctx.ok("distortion_resolution", d["1"].frequency_vector_hz[1] <= 5 + 5 / n, f"{d['1'].frequency_vector_hz[1]}")
    if how == "list" and ctx.flag("scalings", 0.4):
        # power and amplitude scalings tell the same
        res = []
        z = ctx.normal(n, nh + 1) * a
        for q in (gen.SS.AmplitudeSpectrum, gen.SS.PowerSpectrum) if ctx.flag("spectrum") else (gen.SS.AmplitudeSpectralDensity, gen.SS.PowerSpectralDensity):
            w = [dsp.ImpulseResponse(None, z[:, k], fs, constrain_amplitude=False) for k in range(nh + 1)]
            w[0].spectrum_scaling = q
            res.append(tf.harmonic_distortion_analysis(w, rng, smoothing=0, generate_plot=False))
        for k in res[0]:
            u, v = (np.abs(o[k].spectral_data) for o in res)
            ctx.close("distortion_power_scaling", v, u, 1e-9)
    f = d["thd"].frequency_vector_hz
    step = f[1] - f[0]  # the axis ends where the second harmonic does, up to the resolutions at hand
    ctx.ok("thd_axis", f[0] == 0 and hi / 2 - 2 * step - 8 <= f[-1] <= hi / 2 + step + 8, f"{f[-1]} {hi / 2}")
    y = np.abs(d["thd"].spectral_data[:, 0])
    tops = [d[str(k + 1)].frequency_vector_hz[-1] for k in range(1, nh + 1)]
    ref = np.sqrt(sum(np.where(f <= top, a[k + 1] ** 2, 0) for k, top in enumerate(tops)))
    sure = np.ones(len(f), bool)
    for top in tops:
        sure &= np.abs(f - top) > 1e-6 * top
    sure[0] = False
    ctx.close("thd", y[sure], ref[sure], tol, scale=np.max(np.abs(a[1:])))
    ctx.close("thd_percent", np.abs(d["thd_percent"].spectral_data[:, 0])[sure], ref[sure] / abs(a[0]) * 100, tol, scale=100 * np.max(np.abs(a[1:])) / a[0])
    P = np.abs(d["thd_n"].spectral_data[:, 0])
    if how == "list":
        # all harmonic responses behind each other, the last one first
        z = np.concatenate([irs[k].time_data[:, 0] for k in range(nh, 0, -1)])
        fz = d["thd_n"].frequency_vector_hz
        ref = np.abs(np.exp(-2j * np.pi * np.outer(fz / fs, np.arange(len(z)))) @ z)
        ctx.close("thd_n", P, ref, 1e-8, scale=np.sum(np.abs(z)))


def smoothing(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 100, 800)
    c = ctx.int("ch", 1, 3)
    x = np.zeros((n, c))
    for k in range(c):
        x[:, k] = ctx.normal(n) * 0.05 * np.exp(-np.arange(n) / (n / 10))
        x[0, k] = 1
    s = dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
    dom = ctx.pick("domain", SMOOTH)
    frac = ctx.pick("fraction", [1.0, 3.0, 6.0, 12.0, 0.5])
    wt = ctx.pick("w", [dsp.Window.Hann, dsp.Window.Boxcar, dsp.Window.Hamming])
    b = snap(s)
    out = tf.complex_smoothing(s, frac, dom, wt)
    ctx.ok("smoothing_input_kept", diff(b, snap(s)) is None)
    f, S = s.get_spectrum()
    ctx.close("smoothing_f", out.frequency_vector_hz, f, 1e-12)
    win = wt(3000, True)
    F = 2 ** (0.5 / frac)
    df = f[1] - f[0]
    wx = np.linspace(-1, 1, 3000)

    def sm(Z):
        R = np.zeros(Z.shape, complex)
        for i in range(len(f)):
            lo = i - int((f[i] - f[i] / F) / df + 0.5)
            hi = i + int((f[i] * F - f[i]) / df + 0.5) + 1
            L = hi - lo
            h2 = min(hi, len(f))
            if lo + 2 >= h2:
                R[i] = Z[i]
                continue
            w = np.interp(3.0 ** (1 - np.arange(L) / (L - 1)) - 2.0, wx, win)[: h2 - lo]
            R[i] = (w / w.sum()) @ Z[lo:h2]
        return R

    ph = np.unwrap(np.angle(S), axis=0)
    m = np.abs(S)
    D = tf.SmoothingDomain
    ref = {
        D.RealImaginary: lambda: sm(S),
        D.MagnitudePhase: lambda: sm(m).real * np.exp(1j * sm(ph).real),
        D.PowerPhase: lambda: np.sqrt(sm(m**2).real) * np.exp(1j * sm(ph).real),
        D.Power: lambda: np.sqrt(sm(m**2).real) * np.exp(1j * np.angle(S)),
        D.Magnitude: lambda: sm(m).real * np.exp(1j * np.angle(S)),
        D.EquivalentComplex: lambda: np.sqrt(sm(m**2).real) * np.exp(1j * np.angle(sm(S))),
    }[dom]()
    ctx.close(f"smoothing_{dom.name}", out.spectral_data, ref, 1e-8, scale=np.max(m))
    if dom != D.RealImaginary:
        mo = np.abs(out.spectral_data)
        ctx.ok("smoothing_extremes", np.all(mo <= np.max(m, 0) + 1e-9) and np.all(mo >= np.min(m, 0) - 1e-9))


MORE = 6  # times the number of cases below in the quick tier
FAMILIES = [
    Family("window_ir", window, 500, 9000),
    Family("window_ir_tukey", tukey, 150, 3000),
    Family("window_centered", centered, 150, 3000),
    Family("trim", trim, 30, 500),
    Family("average", average, 100, 1600),
    Family("combine", combine, 30, 500),
    Family("convert", convert, 60, 1000),
    Family("phase_filters", phase_filters, 30, 400),
    Family("fdw", fdw, 40, 500),
    Family("harmonics", harmonics, 120, 2000),
    Family("distortion", distortion, 60, 1000),
    Family("complex_smoothing", smoothing, 60, 900),
]
