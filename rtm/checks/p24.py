"""P24: room-acoustic descriptors of responses whose decays are known."""

import numpy as np
import dsptoolbox as dsp
from dsptoolbox import room_acoustics as ra
from rtm.core import Family
from rtm.snap import snap, diff

PROPERTY = "P24"
RT = ra.ReverbTime
D = ra.RoomAcousticsDescriptor
K = 3 * np.log(10)
FSR = [8000, 16000, 22050, 44100, 48000]


def decay(ctx, fs, T, delay, length, noise_db=None, kind="sign", direct=1.1):
    """Amplitude envelope exp(-3 ln10 t / T) from sample `delay` on."""
    n = length - delay
    t = np.arange(n) / fs
    x = np.exp(-K * t / T)
    if kind == "sign":
        x = x * ctx.rng.choice([-1.0, 1.0], n)
    elif kind == "alternate":
        x = x * (-1.0) ** np.arange(n)
    else:
        x = x * np.clip(ctx.normal(n), -2.5, 2.5)
        x[0] = np.sign(x[0]) * 2.5
    x[0] *= direct
    out = np.zeros(length)
    out[delay:] = x
    if noise_db is not None:
        out += ctx.normal(length) * 10 ** (-noise_db / 20)
    return out


def imp(x, fs):
    return dsp.ImpulseResponse(None, np.asarray(x, float).copy(), fs, constrain_amplitude=False)


def room(ctx, noise=True, c=None, kinds=("sign", "sign", "alternate")):
    """Channels with their own decay times."""
    fs = ctx.pick("fs", FSR)
    c = c or ctx.int("ch", 1, 3)
    T = [float(np.exp(ctx.rng.uniform(np.log(0.25), np.log(2.0)))) for _ in range(c)]
    ctx.note("T=" + ",".join(f"{t:.3f}" for t in T))
    kind = ctx.pick("kind", list(kinds))
    db = ctx.pick("noise_db", [75, 85, 100, 120]) if noise else None
    d = int(ctx.pick("delay_s", [0.0, 0.001, 0.01, 0.1]) * fs)
    span = (db if noise else ctx.pick("span_db", [90, 120])) / 60 * max(T) + 0.3 * max(T)
    n = d + int(span * fs)
    x = np.stack([decay(ctx, fs, t, d, n, db, kind) for t in T], 1)
    return x, fs, T, d, db, kind


TOL = {RT.T20: 0.03, RT.T30: 0.03, RT.T60: 0.05, RT.EDT: 0.05, RT.Adaptive: 0.03}


def truth(mode, T):
    return T / 6 if mode == RT.EDT else T


def times(ctx):
    noise = ctx.flag("noise", 0.7)
    x, fs, T, d, db, kind = room(ctx, noise)
    s = imp(x, fs)
    b = snap(s)
    trim = True if noise else ctx.flag("trim")
    for mode in RT:
        if mode == RT.T60 and noise and db < 100:
            continue
        t, r = ra.reverb_time(s, mode, automatic_trimming=trim)
        ctx.ok("shape", np.shape(t) == (len(T),) and np.shape(r) == (len(T),))
        tol = TOL[mode] * (4 if kind == "normal" else 1)
        for k in range(len(T)):
            e = t[k] / truth(mode, T[k]) - 1
            ctx.ok(f"time_{mode.name}", abs(e) < tol, f"{e:.4f} T={T[k]:.3f} got {t[k]:.4f}")
            ctx.ok("correlation", -1 - 1e-9 <= r[k] < -0.97, f"{r[k]}")
            ctx.event("reverb_times", 1)
    ctx.ok("input_kept", diff(b, snap(s)) is None, str(diff(b, snap(s))))


RANGES = {RT.EDT: (0, -10), RT.T20: (-5, -25), RT.T30: (-5, -35), RT.T60: (-5, -65)}


def curved(ctx):
    """Decays that bend: each descriptor is the slope of the energy decay
    curve over its own range of levels."""
    fs = ctx.pick("fs", FSR)
    c = ctx.int("ch", 1, 3)
    db = ctx.pick("noise_db", [None, 110, 130])
    d = int(ctx.pick("delay_s", [0.001, 0.01, 0.1]) * fs)
    envs, clean = [], []
    for _ in range(c):
        T1 = float(ctx.rng.uniform(0.2, 0.5))
        T2 = T1 * float(ctx.rng.uniform(2, 5))
        knee = float(ctx.rng.uniform(2, 35))
        ctx.note(f"T={T1:.2f}/{T2:.2f}@{knee:.1f}")
        envs.append((T1, T2, 10 ** (-knee / 10) * T1 / T2))
    n = d + int(fs * max(((db or 120) / 60 + 0.3) * e[1] for e in envs))
    t = np.arange(n - d) / fs
    x = np.zeros((n, c))
    for k, (T1, T2, a) in enumerate(envs):
        x[d:, k] = np.sqrt(np.exp(-2 * K * t / T1) + a * np.exp(-2 * K * t / T2)) * ctx.rng.choice([-1.0, 1.0], n - d)
    e = x[d:] ** 2
    edc = 10 * np.log10(np.cumsum(e[::-1], axis=0)[::-1])
    edc -= edc[0]
    if db:
        x = x + ctx.normal(n, c) * 10 ** (-db / 20)
    for mode, (hi, lo) in RANGES.items():
        if db and mode == RT.T60:
            continue  # too close to the noise floor
        trim = ctx.flag("trim") if db else False
        got, _ = ra.reverb_time(imp(x, fs), mode, automatic_trimming=trim)
        # the end found automatically can be the bend itself
        tol = 0.1 if mode == RT.T60 else 0.2 if trim else 0.03
        for k in range(c):
            sel = (edc[:, k] <= hi) & (edc[:, k] > lo)
            p = -60 / np.polyfit(t[sel], edc[sel, k], 1)[0]
            ctx.ok(f"curved_{mode.name}", abs(got[k] / truth(mode, p) - 1) < tol, f"{got[k]} {truth(mode, p)} {envs[k]}")
    ctx.event("bent_decays", c)


def gaussian(ctx):
    """Noise-like decays: right in the median over realisations (finding the
    end is a heuristic on single realisations)."""
    fs = ctx.pick("fs", FSR)
    T = float(np.exp(ctx.rng.uniform(np.log(0.3), np.log(2.0))))
    ctx.note(f"T={T:.3f}")
    db = ctx.pick("noise_db", [65, 80, 100])
    n = int((db / 60 + 0.4) * T * fs)
    x = np.stack([decay(ctx, fs, T, int(0.01 * fs), n, db, "normal") for _ in range(9)], 1)
    for mode in (RT.T20, RT.T30, RT.Adaptive):
        t, _ = ra.reverb_time(imp(x, fs), mode)
        ctx.ok("median_" + mode.name, abs(np.median(t) / T - 1) < 0.08, f"{t} {T}")
    ctx.event("realisations", 9)


def invariance(ctx):
    noise = ctx.flag("noise", 0.7)
    trim = True if noise else ctx.flag("trim")
    x, fs, T, d, db, kind = room(ctx, noise, kinds=("sign", "alternate") if trim else ("sign", "normal"))
    mode = ctx.pick("mode", [RT.T20, RT.T30, RT.EDT, RT.Adaptive])
    ref, _ = ra.reverb_time(imp(x, fs), mode, automatic_trimming=trim)
    g = ctx.pick("gain2", [2.0**-20, 2.0**-5, 0.5, 4.0, 1024.0]) * ctx.pick("sign", [-1, 1])
    t, _ = ra.reverb_time(imp(x * g, fs), mode, automatic_trimming=trim)
    ctx.close("gain", t, ref, 1e-4)
    g = ctx.logu("gain", 1e-4, 1e3) * ctx.pick("sign2", [-1, 1])
    t, _ = ra.reverb_time(imp(x * g, fs), mode, automatic_trimming=trim)
    ctx.close("any_gain", t, ref, 5e-3 if kind != "normal" else 2e-2)
    extra = ctx.int("extra", 1, int(0.2 * fs))
    pre = ctx.rng.normal(size=(extra, x.shape[1])) * (10 ** (-db / 20) if noise else 0)
    t, _ = ra.reverb_time(imp(np.concatenate([pre, x]), fs), mode, automatic_trimming=trim)
    ctx.close("delay", t, ref, 1e-2 if kind != "normal" else 4e-2)
    perm = ctx.rng.permutation(x.shape[1])
    t, r = ra.reverb_time(imp(x[:, perm], fs), mode, automatic_trimming=trim)
    ctx.close("permutation", t, ref[perm], 1e-12)
    one = np.array([ra.reverb_time(imp(x[:, [k]], fs), mode, automatic_trimming=trim)[0][0] for k in range(x.shape[1])])
    ctx.close("per_channel", one, ref, 1e-12)
    # a longer decay gives a longer time
    q = ctx.uniform("longer", 1.15, 3)
    y = np.stack([decay(ctx, fs, tk * q, d, int(len(x) * q), db, kind) for tk in T], 1)
    t, _ = ra.reverb_time(imp(y, fs), mode, automatic_trimming=trim)
    if kind != "normal":
        ctx.ok("longer", np.all(t > ref), f"{t} {ref}")
    ctx.event("invariances", 6)


def multiband(ctx):
    x, fs, T, d, db, kind = room(ctx, True)
    bands = ctx.int("bands", 1, 4)
    xs = [x]
    for _ in range(bands - 1):
        Tb = [float(np.exp(ctx.rng.uniform(np.log(0.25), np.log(max(T))))) for _ in T]
        xs.append(np.stack([decay(ctx, fs, t, d, len(x), db, kind) for t in Tb], 1))
    mb = dsp.MultiBandSignal([imp(y, fs) for y in xs])
    b = snap(mb)
    trim = ctx.flag("trim", 0.6)
    mode = ctx.pick("mode", [RT.T20, RT.T30, RT.EDT, RT.Adaptive])
    if trim:
        t, r = ra.reverb_time(mb, mode)
        ctx.ok("mb_shape", np.shape(t) == (bands, x.shape[1]) and np.shape(r) == np.shape(t))
        for i, y in enumerate(xs):
            t1, r1 = ra.reverb_time(imp(y, fs), mode)
            ctx.close("mb_time", t[i], t1, 1e-12)
            ctx.close("mb_corr", r[i], r1, 1e-12)
    for de in (D.D50, D.C80, D.CenterTime):
        v = ra.descriptors(mb, de, trim)
        ctx.ok("mb_desc_shape", np.shape(v) == (bands, x.shape[1]))
        for i, y in enumerate(xs):
            ctx.close("mb_" + de.name, v[i], ra.descriptors(imp(y, fs), de, trim), 1e-12, atol=1e-12)
    ctx.raises("mb_bass", lambda: ra.descriptors(mb, D.BassRatio))
    ctx.ok("mb_input_kept", diff(b, snap(mb)) is None)
    ctx.event("multiband", bands)


def start_of(x, thr):
    a = np.abs(x)
    p = int(np.argmax(a))
    below = np.flatnonzero(a[: p + 1] < a[p] * 10 ** (-abs(thr) / 20))
    return int(below[-1]) if len(below) else 0


def energies(ctx):
    noise = ctx.flag("noise", 0.5)
    x, fs, T, d, db, kind = room(ctx, noise)
    s = imp(x, fs)
    b = snap(s)
    trim = ctx.flag("trim")
    for de in (D.D50, D.C80, D.CenterTime):
        v = ra.descriptors(s, de, trim)
        ctx.ok("desc_shape", np.shape(v) == (len(T),))
        for k, t in enumerate(T):
            y = x[start_of(x[:, k], 20) :, k] ** 2
            if de == D.D50:
                direct = np.sum(y[: int(0.05 * fs)]) / np.sum(y)
                ana = 1 - np.exp(-2 * K * 0.05 / t)
                lim, la = 2e-3, 0.01
            elif de == D.C80:
                m = int(0.08 * fs)
                direct = 10 * np.log10(np.sum(y[:m]) / np.sum(y[m:]))
                ana = 10 * np.log10(np.exp(2 * K * 0.08 / t) - 1)
                lim, la = 0.1, 0.1
            else:
                direct = np.sum(y * np.arange(len(y))) / fs / np.sum(y)
                ana = t / 2 / K
                lim, la = 0.01 * ana + 1 / fs, 0.03 * ana + 2 / fs
            if trim is False:
                # the sums themselves (time axis of the centre time ends at the length)
                ctx.ok("direct_" + de.name, abs(v[k] - direct) < 1e-9 + (1e-3 * abs(direct) if de == D.CenterTime else 0), f"{v[k]} {direct}")
            elif not noise or db > 80:
                ctx.ok("trimmed_" + de.name, abs(v[k] - direct) < lim * (10 if db and db < 90 else 2), f"{v[k]} {direct}")
            if kind != "normal" and (not noise or db > 90):
                ctx.ok("analytic_" + de.name, abs(v[k] - ana) < la * 2, f"{v[k]} {ana} T={t}")
            ctx.event("descriptors", 1)
        g = ctx.pick("gain", [2.0**-12, 0.25, 8.0]) * ctx.pick("sg", [-1, 1])
        ctx.close("desc_gain", ra.descriptors(imp(x * g, fs), de, trim), v, 1e-9, atol=1e-9)
        e = ctx.int("extra", 1, 2000)
        z = ra.descriptors(imp(np.concatenate([np.zeros((e, x.shape[1])), x]), fs), de, trim)
        ctx.close("desc_delay", z, v, 2e-2, atol=2e-2 if de == D.C80 else 1.5 / fs)
        one = np.array([ra.descriptors(imp(x[:, [k]], fs), de, trim)[0] for k in range(len(T))])
        ctx.close("desc_per_channel", one, v, 1e-12)
    ctx.ok("desc_input_kept", diff(b, snap(s)) is None)


def bass(ctx):
    fs = ctx.pick("fs", [8000, 16000, 44100])
    c = ctx.int("ch", 1, 3)
    n = int(fs * 3.0)
    t = np.arange(n) / fs
    x = np.zeros((n, c))
    ref = np.zeros(c)
    for k in range(c):
        Ts = np.exp(ctx.rng.uniform(np.log(0.6), np.log(1.8), 4))
        for f, T in zip([125, 250, 500, 1000], Ts):
            x[:, k] += np.cos(2 * np.pi * f * t + ctx.rng.uniform(0, 6)) * np.exp(-K * t / T)
        ref[k] = (Ts[0] + Ts[1]) / (Ts[2] + Ts[3])
    x = np.concatenate([np.zeros((ctx.int("delay", 10, 4000), c)), x * 0.2])
    x += ctx.rng.normal(size=x.shape) * 1e-6
    s = imp(x, fs)
    b = snap(s)
    v = ra.descriptors(s, D.BassRatio)
    ctx.ok("bass_shape", np.shape(v) == (c,))
    ctx.ok("bass", np.all(np.abs(v / ref - 1) < 0.06), f"{v} {ref}")
    ctx.close("bass_trim_ignored", ra.descriptors(s, D.BassRatio, False), v, 1e-12)
    ctx.close("bass_gain", ra.descriptors(imp(-x * 0.125, fs), D.BassRatio), v, 1e-6)
    ctx.ok("bass_input_kept", diff(b, snap(s)) is None)
    ctx.event("bass_ratios", c)


def start(ctx):
    fs = ctx.pick("fs", FSR)
    n, c = ctx.int("n", 5, 3000), ctx.int("ch", 1, 4)
    x = ctx.rng.normal(size=(n, c)) * np.exp(-np.abs(np.arange(n) - ctx.rng.integers(0, n, c)[:, None]).T / (n / 10 + 1))
    if ctx.flag("sparse"):
        x *= ctx.rng.random((n, c)) < 0.3
        x[0] = 0.9
    s = imp(x, fs)
    thr = -ctx.uniform("thr", 0.5, 60)
    v = ra.find_ir_start(s, thr)
    ctx.ok("start_type", v.shape == (c,) and np.issubdtype(v.dtype, np.integer))
    ctx.equal("start", [int(i) for i in v], [start_of(x[:, k], thr) for k in range(c)])
    ctx.equal("start_gain", [int(i) for i in ra.find_ir_start(imp(-x * 8, fs), thr)], [int(i) for i in v])
    ctx.raises("start_positive", lambda: ra.find_ir_start(s, 20))
    ctx.event("starts", c)


def given_start(ctx):
    """Passing the start: it is honoured per channel and per band."""
    fs = ctx.pick("fs", FSR)
    c = ctx.int("ch", 1, 3)
    n = int(1.6 * fs)
    x = np.zeros((n, c))
    st = np.zeros(c, int)
    T2 = np.zeros(c)
    for k in range(c):
        # a steep early part, the slow one begins at st
        st[k] = int(ctx.rng.uniform(0.03, 0.08) * fs)
        T2[k] = ctx.rng.uniform(0.6, 1.0)
        x[:, k] = decay(ctx, fs, 0.1, 0, n, None, "sign")
        x[st[k] :, k] = decay(ctx, fs, T2[k], 0, n - st[k], None, "sign") * 10 ** (-3 * st[k] / fs / 0.1)
    s = imp(x, fs)
    auto = ra.find_ir_start(s)
    mode = ctx.pick("mode", [RT.EDT, RT.T20, RT.T30])
    t0, r0 = ra.reverb_time(s, mode, automatic_trimming=False)
    t1, r1 = ra.reverb_time(s, mode, ir_start=auto, automatic_trimming=False)
    ctx.close("given_same", t1, t0, 1e-12)
    form = ctx.pick("form", ["list", "array", "int"])
    given = {"list": [int(i) for i in st], "array": st.copy(), "int": int(st[0])}[form]
    t, r = ra.reverb_time(s, mode, ir_start=given, automatic_trimming=False)
    for k in range(1 if form == "int" else c):
        ctx.ok("given_start", abs(t[k] / truth(mode, T2[k]) - 1) < 0.04, f"{t[k]} {T2[k]}")
    mb = dsp.MultiBandSignal([imp(x, fs), imp(x[:, ::-1], fs)])
    two = np.stack([st, st[::-1]])
    t2, _ = ra.reverb_time(mb, mode, ir_start=two, automatic_trimming=False)
    ta, _ = ra.reverb_time(s, mode, ir_start=st, automatic_trimming=False)
    ctx.close("given_bands", t2, np.stack([ta, ta[::-1]]), 1e-12)
    same = dsp.MultiBandSignal([imp(x, fs), imp(2 * x, fs)])
    t3, _ = ra.reverb_time(same, mode, ir_start=ctx.pick("dtype", [st, st.astype(float)]), automatic_trimming=False)
    ctx.close("given_per_channel", t3, np.stack([ta, ta]), 1e-9)
    t4, _ = ra.reverb_time(same, mode, ir_start=int(st[0]), automatic_trimming=False)
    t5, _ = ra.reverb_time(s, mode, ir_start=int(st[0]), automatic_trimming=False)
    ctx.close("given_number", t4, np.stack([t5, t5]), 1e-9)
    ctx.event("given", c)


def modes(ctx):
    fs = ctx.pick("fs", [1000, 4000, 8000, 44100])
    c = ctx.int("ch", 1, 3)
    n = ctx.pick("len", [int(0.7 * fs), fs, int(1.5 * fs)])
    t = np.arange(n) / fs
    f = []
    at = ctx.uniform("first", 60, 80)
    while at < 190:
        f.append(at)
        at += ctx.rng.uniform(22, 45)
    T = ctx.uniform("T", 0.4, 0.7)
    x = np.zeros((n, c))
    for k in range(c):
        for fk in f:
            x[:, k] += ctx.rng.uniform(0.5, 1) * ctx.rng.choice([-1, 1]) * np.cos(2 * np.pi * fk * t) * np.exp(-K * t / T)
    s = imp(x, fs)
    params = ctx.flag("settings")
    if params:
        s.set_spectrum_parameters(method=ctx.pick("m", [dsp.SpectrumMethod.FFT, dsp.SpectrumMethod.WelchPeriodogram]), scaling=ctx.pick("sc", [dsp.SpectrumScaling.FFTBackward, dsp.SpectrumScaling.PowerSpectralDensity]), smoothing=ctx.pick("sm", [0, 3]))
    b = snap(s)
    m = ra.find_modes(s, [50, 200], dist_hz=ctx.pick("dist", [1, 5, 10]), prominence_db=ctx.pick("prom", [1, 2]))
    ctx.ok("modes_input_kept", diff(b, snap(s)) is None, str(diff(b, snap(s))))
    ctx.ok("modes_sorted", np.all(np.diff(m) > 0) and np.all((m >= 49) & (m <= 201)))
    if c == 1:
        ctx.ok("modes_found", all(np.min(np.abs(m - fk)) <= 2.5 for fk in f), f"{m} {f}")
        ctx.ok("modes_only", all(np.min(np.abs(np.array(f) - mk)) <= 2.5 for mk in m), f"{m} {f}")
        h = np.abs(np.fft.rfft(np.concatenate([x[:, 0], np.zeros(max(0, fs - n))])[:fs]))
        for mk in m:
            i = int(round(mk))
            ctx.ok("modes_peak", h[i] >= h[i - 1] and h[i] >= h[i + 1])
        a = ra.find_modes(s, [50, 200], dist_hz=1, antiresonances=True)
        for mk in a:
            i = int(round(mk))
            ctx.ok("antiresonances", h[i] <= h[i - 1] and h[i] <= h[i + 1])
    else:
        y = np.repeat(x[:, [0]], c, 1)
        m1 = ra.find_modes(imp(y, fs), [50, 200], prominence_db=3)
        m2 = ra.find_modes(imp(x[:, [0]], fs), [50, 200], prominence_db=3)
        ctx.equal("modes_equal_channels", list(m1), list(m2))
    ctx.equal("modes_gain", list(ra.find_modes(imp(-x * 4, fs), [50, 200], prominence_db=3)), list(ra.find_modes(imp(x, fs), [50, 200], prominence_db=3)))
    ctx.event("modes", len(f))


FAMILIES = [
    Family("times", times, 60, 1500),
    Family("curved", curved, 80, 2000),
    Family("gaussian", gaussian, 20, 300),
    Family("invariance", invariance, 30, 700),
    Family("multiband", multiband, 30, 600),
    Family("energies", energies, 40, 1000),
    Family("bass", bass, 15, 250),
    Family("start", start, 100, 2000),
    Family("given_start", given_start, 40, 800),
    Family("modes", modes, 60, 1000),
]
