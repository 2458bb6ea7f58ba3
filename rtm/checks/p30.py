"""P30: generated signals."""

import contextlib
import io
import warnings

import numpy as np
from scipy.signal import hilbert
import dsptoolbox as dsp
from dsptoolbox import generators as ge
from dsptoolbox.standard.enums import FadeType
from rtm.core import Family
from rtm import gen

PROPERTY = "P30"
NT, CT, WF = ge.NoiseType, ge.ChirpType, ge.WaveForm
FADES = [None, FadeType.NoFade, FadeType.Linear, FadeType.Exponential, FadeType.Logarithmic]


def silent(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def faded(mode, n, m):
    """Expected gain of the fade-in over its m samples."""
    if mode == FadeType.Linear:
        g = np.linspace(0, 1, m)
    elif mode == FadeType.Exponential:
        g = 10 ** (np.linspace(-100, 0, m) / 20)
    elif mode == FadeType.Logarithmic:
        g = np.log10(np.linspace(1, 50 * np.sqrt(10), m)) / np.log10(50 * np.sqrt(10))
    else:
        g = np.ones(m)
    e = np.ones(n)
    e[:m] *= g
    e[n - m :] *= g[::-1]
    return e


def common(ctx, s, fs, n, pad, c, cls=dsp.Signal):
    ctx.ok("class", type(s) is cls)
    ctx.equal("rate", s.sampling_rate_hz, fs)
    ctx.equal("shape", s.time_data.shape, (n + pad, c))
    ctx.ok("finite", np.all(np.isfinite(s.time_data)), "NaN or inf")
    ctx.ok("silent_padding", not np.any(s.time_data[n:]))


def length(ctx, lo, hi, fs):
    """Seconds that are a whole number of samples, and those samples."""
    n = int(np.exp(ctx.rng.uniform(np.log(lo), np.log(hi))))
    ctx.note(f"length {n}")
    pad = 0 if ctx.flag("no_padding") else ctx.int("pad", 1, 3000)
    return n, n / fs, pad, pad / fs


def slope(kind):
    return {NT.White: 0, NT.Pink: 1, NT.Red: 2, NT.Blue: -1, NT.Violet: -2}.get(kind, kind)


def noises(ctx):
    fs = ctx.pick("fs", gen.FS)
    n, T, pad, P = length(ctx, 8, 40000, fs)
    c = min(ctx.int("ch", 1, 4), n // 2)
    kind = ctx.pick("kind", list(NT) + [0.0, 0.5, -0.7, 1.0, 3.0])
    pk = ctx.pick("peak", [0, -10.0, -3, -60, -0.1])
    fade = ctx.pick("fade", FADES)
    seed = ctx.int("seed", 0, 2**31)
    if kind == NT.Grey and fs / n > 1900:
        kind = NT.White
    mk = lambda: silent(lambda: ge.noise(T, fs, kind, pk, c, fade, P))
    np.random.seed(seed)
    s = mk()
    s2 = mk()
    np.random.seed(seed)
    s3 = mk()
    common(ctx, s, fs, n, pad, c)
    x = s.time_data[:n]
    ctx.close("peak", np.max(np.abs(x), 0), np.full(c, 10 ** (pk / 20)), 1e-9)
    ctx.ok("seeded", np.array_equal(s.time_data, s3.time_data))
    ctx.ok("random", not np.allclose(s.time_data, s2.time_data))
    if n > 2000:
        r = np.corrcoef(np.hstack([x, s2.time_data[:n]]).T)
        r = np.abs(r[np.triu_indices(2 * c, 1)])
        if kind in (NT.White, NT.Blue, NT.Violet, 0.0, -0.7):
            ctx.ok("independent", np.max(r) < 6 / np.sqrt(n), f"{np.max(r)}")
        else:
            ctx.ok("independent", np.max(r) < 0.99999, f"{np.max(r)}")
    f = np.fft.rfftfreq(n, 1 / fs)
    m = int(0.05 * T * fs)
    e = faded(fade, n, m)
    hit = [k for k in (m - 1, m, m + 1) if 0 <= k]
    # Undo the fade where it is known
    X = None
    for k in hit:
        e = faded(fade, n, k)
        if np.all(e > 0):
            Y = np.abs(np.fft.rfft(x / e[:, None], axis=0))
            if X is None or np.max(Y[0]) < np.max(X[0]):
                X = Y
    if X is None or n < 200:
        return
    ctx.ok("no_dc", np.max(X[0]) < 1e-6 * np.max(X), f"{np.max(X[0])} {np.max(X)}")
    ref = np.zeros(len(f))
    up = f >= 15 + fs / n
    if kind == NT.Grey:
        f2 = f[up] ** 2
        A = 12194**2 * f2**2 / ((f2 + 20.6**2) * np.sqrt((f2 + 107.7**2) * (f2 + 737.9**2)) * (f2 + 12194**2))
        ref[up] = 1 / A
    else:
        ref[up] = f[up] ** (-slope(kind) / 2)
    if n % 2 == 0:
        up[-1] = False
    if np.sum(up) > 3:
        for ch in range(c):
            q = X[up, ch] / ref[up]
            q = q / np.median(q)
            ctx.ok("colour", np.max(np.abs(q - 1)) < 0.03 if fade in FADES[:2] or fade == FadeType.Exponential else np.median(np.abs(q - 1)) < 0.03, f"{np.min(q)} {np.max(q)}")
    if kind in (NT.White, 0.0) and len(f) > 3:
        ctx.ok("white_from_first_bin", np.all(np.abs(X[1] / np.median(X[1:], 0) - 1) < 0.05), f"{X[1] / np.median(X[1:], 0)}")
    ctx.event("samples", n)


def noise_refusals(ctx):
    fs = ctx.pick("fs", gen.FS)
    ctx.raises("length", lambda: ge.noise(ctx.pick("l", [0.0, -1.0]), fs))
    ctx.raises("peak", lambda: ge.noise(0.1, fs, peak_level_dbfs=ctx.logu("p", 0.1, 20)))
    ctx.raises("channels", lambda: ge.noise(0.1, fs, number_of_channels=0))
    ctx.raises("type", lambda: ge.noise(0.1, fs, ctx.pick("t", ["pink", None])))
    ctx.raises("padding", lambda: ge.noise(0.1, fs, padding_end_seconds=-0.1))
    ctx.raises("frequency", lambda: ge.oscillator(ctx.pick("f", [0, -5, fs / 2, fs]), fs))
    ctx.raises("cutoff", lambda: ge.oscillator(100, fs, harmonic_cutoff_hz=ctx.pick("c", [-5, 0, fs])))
    ctx.raises("cutoff_below_frequency", lambda: ge.oscillator(100, fs, 0.1, WF.Square, harmonic_cutoff_hz=50))
    ctx.raises("range", lambda: ge.chirp(fs, range_hz=ctx.pick("r", [[0, 100], [-5, 100], [100, fs], [20], [1, 2, 3]])))
    ctx.raises("dirac_delay", lambda: ge.dirac(20, fs, ctx.pick("d", [20, 30, -1])))
    ctx.raises("dirac_length", lambda: ge.dirac(ctx.pick("n", [0, -4]), fs))
    ctx.raises("dirac_channels", lambda: ge.dirac(20, fs, 0, 0))


def chirps(ctx):
    fs = ctx.pick("fs", gen.FS)
    kind = ctx.pick("kind", list(CT))
    n, T, pad, P = length(ctx, 3000, 60000, fs)
    c = ctx.int("ch", 1, 3)
    f0, f1 = ctx.logu("f0", 20, fs / 40), ctx.uniform("f1", 0.1, 0.49) * fs
    if ctx.flag("nyquist", 0.2):
        f1 = fs // 2
    pk = ctx.pick("peak", [0, -10.0, -3, -60])
    fade = ctx.pick("fade", FADES)
    ph = 0.0 if kind == CT.SyncLog else ctx.uniform("phase", -3, 3)
    rg = [f1, f0] if ctx.flag("reversed", 0.3) else [f0, f1]
    default = ctx.flag("default_range", 0.2)
    if default:
        f0, f1 = 15, fs // 2
    L0 = f0 * T / np.log(f1 / f0)
    if kind == CT.SyncLog and L0 < 1:
        ctx.note("too short for a synchronized chirp")
        return
    rb = list(rg)
    s = silent(lambda: ge.chirp(fs, kind, None if default else rg, T, pk, c, fade, ph, P))
    ctx.ok("range_kept", rg == rb)
    t = np.arange(n) / fs
    N = n
    if kind == CT.SyncLog:
        s, T2 = s
        L = np.round(L0) / f0
        ctx.close("duration", T2, L * np.log(f1 / f0), 1e-9)
        N = max(n, int(T2 * fs + 0.5))
        n2 = int(T2 * fs + 0.5)
    else:
        T2, n2 = T, n
    common(ctx, s, fs, N, pad, c)
    x = s.time_data[:, 0]
    ctx.ok("same_channels", all(np.array_equal(x, s.time_data[:, i]) for i in range(c)))
    g = 10 ** (pk / 20)
    ctx.ok("peak", g * 0.97 <= np.max(np.abs(x)) <= g * (1 + 1e-9), f"{np.max(np.abs(x)) / g}")
    # (samples span the whole duration, so the time step is T / (n - 1))
    u = np.linspace(0, T2, n2)
    if kind == CT.Linear:
        phase = 2 * np.pi * (f0 * u + (f1 - f0) / T2 * u**2 / 2) + ph
    else:
        k = np.log(f1 / f0) / T2
        phase = 2 * np.pi * f0 / k * np.expm1(k * u) + ph
    m = int(0.05 * T * fs)
    body = slice(m + 2, n2 - m - 2)
    # Either sampled at exactly 1 / fs or spanning the duration
    alt = []
    for uu in (u, np.arange(n2) / fs):
        if kind == CT.Linear:
            p = 2 * np.pi * (f0 * uu + (f1 - f0) / T2 * uu**2 / 2) + ph
        else:
            p = 2 * np.pi * f0 / k * np.expm1(k * uu) + ph
        r = np.sin(p)
        alt.append(np.max(np.abs(x[body] / g - (r / np.max(np.abs(r)))[body])))
    ctx.ok("sweep", min(alt) < 1e-4 * (1 + 1e-3 * f1), f"{alt}")
    # Fades
    if fade in (None, FadeType.NoFade):
        r = np.sin(phase)
        ctx.close("not_faded", x[:20] / g, r[:20] / np.max(np.abs(r)), 1e-3, scale=1)
    else:
        r = np.sin(phase) * faded(fade, n2, m)
        e = np.max(np.abs(x[: m // 2] / g - r[: m // 2] / np.max(np.abs(np.sin(phase)))))
        ctx.ok("fade_in", e < 0.02, f"{e}")
        ctx.ok("fade_out", np.abs(x[n2 - 1]) < 1e-4 * g, f"{x[n2 - 1]}")
    ctx.event("samples", n2)


def oscillators(ctx):
    fs = ctx.pick("fs", gen.FS + [44101])
    n, T, pad, P = length(ctx, 200, 20000, fs)
    c = min(ctx.int("ch", 1, 4), n // 2)
    mode = ctx.pick("mode", list(WF))
    f = ctx.logu("f", max(8 * fs / n, 20), fs * 0.45)
    cut = None if ctx.flag("no_cutoff") or f * 1.5 > fs // 2 else ctx.uniform("cut", f * 1.01, fs // 2)
    pk = ctx.pick("peak", [0, -10.0, -3, -60])
    fade = ctx.pick("fade", FADES)
    un = ctx.flag("uncorrelated")
    s = silent(lambda: ge.oscillator(f, fs, T, mode, cut, pk, c, un, fade, P))
    common(ctx, s, fs, n, pad, c)
    g = 10 ** (pk / 20)
    m = int(0.05 * T * fs)
    b = slice(m + 2, n - m - 2)
    top = cut or fs // 2
    K = [1] if mode == WF.Harmonic else [k for k in range(1, 1 + int(top / f) + 1) if k * f < top and (mode == WF.Sawtooth or k % 2)]
    w = {WF.Harmonic: lambda k: 1.0, WF.Square: lambda k: 1 / k, WF.Sawtooth: lambda k: (-1.0) ** (k + 1) / k, WF.Triangle: lambda k: (-1.0) ** ((k - 1) // 2) / k**2}[mode]
    t = np.arange(n) / fs
    phases = []
    for ch in range(c):
        x = s.time_data[:n, ch]
        ctx.ok("peak", np.max(np.abs(x)) <= g * (1 + 1e-9) and np.max(np.abs(x)) > 0.85 * g, f"{np.max(np.abs(x)) / g}")
        # Phase of the fundamental by fit, then the whole wave
        th = 2 * np.pi * f * t
        if len(K) <= 60:
            B = np.stack([q(k * th) for k in K for q in (np.sin, np.cos)], 1)
            co, *_ = np.linalg.lstsq(B[b], x[b], rcond=None)
            ctx.close("only_harmonics", B[b] @ co, x[b], 1e-6, scale=g)
            z = co[::2] + 1j * co[1::2]
            p = np.angle(z[0])
            a = np.abs(z[0])
            ref = np.array([w(k) for k in K]) / w(K[0])
            ctx.close("harmonics_and_phases", z / a, ref * np.exp(1j * np.array(K) * p), 1e-5, scale=1)
        else:
            q = slice(b.start, min(b.stop, b.start + 2500))
            wave = lambda p: sum(w(k) * np.sin(k * (th[q] + p)) for k in K)

            def error(p):
                v = wave(p)
                a = (v @ x[q]) / (v @ v)
                return np.sqrt(np.mean((x[q] - a * v) ** 2) / np.mean(x[q] ** 2))

            if un:
                p, span = np.angle(np.sum(x[b] * np.exp(-1j * th[b]))) + np.pi / 2, 0.1
                while span > 1e-6:
                    p = min(p + np.linspace(-span, span, 21), key=error)
                    span /= 8
            else:
                p = 0.0
            e = error(p)
            ctx.ok("wave_form", e < 1e-3, f"{e}")
        phases.append(np.angle(np.exp(1j * p)))
        if not un:
            ctx.ok("in_phase", abs(phases[-1]) < 1e-3 or len(K) > 60, f"{phases[-1]}")
    if un and c > 1:
        d = [abs(np.angle(np.exp(1j * (phases[0] - q)))) for q in phases[1:]]
        ctx.ok("phases_differ", max(d) > 1e-5, f"{phases}")
    if not un:
        ctx.ok("same_channels", all(np.array_equal(s.time_data[:, 0], s.time_data[:, i]) for i in range(c)))
    if fade in FADES[2:] and m > 2:
        ctx.ok("fades", np.max(np.abs(s.time_data[0])) < 1e-4 * g and np.max(np.abs(s.time_data[n - 1])) < 1e-4 * g)
    ctx.event("samples", n)


def short(ctx):
    """Very short signals with every fade."""
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 4, 60)
    fade = ctx.pick("fade", FADES)
    kind = ctx.pick("kind", list(NT))
    if kind == NT.Grey and fs / n > 1900:  # weighting is relative to 1 kHz
        kind = NT.White
    s = silent(lambda: ge.noise(n / fs, fs, kind, -3, 1, fade))
    common(ctx, s, fs, n, 0, 1)
    ctx.close("peak", np.max(np.abs(s.time_data)), 10 ** (-3 / 20), 1e-9)
    s = silent(lambda: ge.oscillator(fs * 0.2, fs, n / fs, ctx.pick("mode", list(WF)), fade=fade))
    common(ctx, s, fs, n, 0, 1)
    s = silent(lambda: ge.chirp(fs, ctx.pick("chirp", [CT.Linear, CT.Logarithmic]), [fs / 10, fs / 4], n / fs, fade=fade))
    common(ctx, s, fs, n, 0, 1)


def impulses(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 4, 5000)
    d = ctx.pick("where", [0, n - 1, int(ctx.rng.integers(n))])
    c = ctx.int("ch", 1, 4)
    s = ge.dirac(n, fs, d, c)
    common(ctx, s, fs, n, 0, c, dsp.ImpulseResponse)
    ref = np.zeros((n, c))
    ref[d] = 1
    ctx.equal("impulse", np.array_equal(s.time_data, ref), True)
    s.time_data = s.time_data * 0.5
    ctx.equal("isolated", np.array_equal(ge.dirac(n, fs, d, c).time_data, ref), True)


MORE = 10  # times the number of cases below in the quick tier
FAMILIES = [
    Family("noises", noises, 80, 2000),
    Family("refusals", noise_refusals, 20, 200),
    Family("chirps", chirps, 80, 2000),
    Family("oscillators", oscillators, 80, 2000),
    Family("short", short, 40, 1000),
    Family("impulses", impulses, 30, 500),
]
