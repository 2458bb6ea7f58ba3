"""P25: synthetic rooms against geometry and the image-source equation."""

import contextlib
import io
import itertools

import numpy as np
import scipy.signal as sig
import dsptoolbox as dsp
from dsptoolbox import room_acoustics as ra
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff

PROPERTY = "P25"
C = 343.0


def room(ctx, lo=1.5, hi=12.0, alpha=None):
    dims = np.exp(ctx.rng.uniform(np.log(lo), np.log(hi), 3))
    if ctx.flag("round_dims", 0.3):
        dims = np.maximum(np.round(dims), 2.0)
    ctx.note("dims=" + ",".join(f"{d:.3f}" for d in dims))
    alpha = alpha if alpha is not None else ctx.uniform("alpha", 0.1, 0.95)
    if ctx.flag("via_t60"):
        V, S = np.prod(dims), 2 * (dims[0] * dims[1] + dims[0] * dims[2] + dims[1] * dims[2])
        r = ra.ShoeboxRoom(list(dims) if ctx.flag("as_list") else dims.copy(), t60_s=0.161 * V / S / alpha)
    else:
        r = ra.ShoeboxRoom(dims.copy(), absorption_coefficient=alpha)
    return r, dims, alpha


def attributes(ctx):
    r, L, alpha = room(ctx)
    V, S = L[0] * L[1] * L[2], 2 * (L[0] * L[1] + L[0] * L[2] + L[1] * L[2])
    ctx.close("volume", r.volume, V, 1e-12)
    ctx.close("area", r.area, S, 1e-12)
    ctx.close("absorption", r.absorption_coefficient, alpha, 1e-12)
    ctx.close("sabine", r.t60_s, 0.161 * V / (S * alpha), 1e-12)
    ctx.close("schroeder", r.schroeders_frequency, 2000 * np.sqrt(r.t60_s / V), 1e-12)
    ctx.close("critical_distance", r.critical_distance_m, 0.057 * np.sqrt(V / r.t60_s), 1e-12)
    f = np.exp(ctx.rng.uniform(np.log(20), np.log(5000), 7))
    c = ctx.pick("c", [343.0, 340.0, 331.3])
    ctx.close("modal_density", r.modal_density(f, c), 4 * np.pi * f**2 * V / c**3 + np.pi * f * S / (2 * c**2), 1e-12)
    ctx.close("mixing_perceptual", r.get_mixing_time("perceptual"), (0.58 * np.sqrt(V) + 21.2) / 1e3, 1e-12)
    n = ctx.int("refl", 1, 2000)
    m = r.get_mixing_time("physical", n, c)
    ctx.close("mixing_physical", 4 * np.pi * c**3 * m**2 / V, n, 1e-12)
    ctx.ok("mixing_kept", r.mixing_time_s == m)
    # inside or outside
    p = ctx.rng.uniform(0, 1, 3) * L
    ctx.ok("inside", r.check_if_in_room(p) is True)
    q = p.copy()
    i = int(ctx.rng.integers(3))
    q[i] = L[i] * ctx.rng.uniform(1.001, 3) if ctx.flag("beyond") else -L[i] * ctx.rng.uniform(0.001, 2)
    ctx.ok("outside", r.check_if_in_room(q) is False, f"{q} in {L}")
    ctx.ok("corners", r.check_if_in_room([0, 0, 0]) and r.check_if_in_room(L))
    ctx.raises("outside_source", lambda: ra.generate_synthetic_rir(r, q, p, 8000, 0.01, max_order=1))
    ctx.raises("outside_receiver", lambda: ra.generate_synthetic_rir(r, p, q, 8000, 0.01, max_order=1))
    bad = 0.161 * V / S / 1.2
    ctx.raises("impossible_t60", lambda: ra.ShoeboxRoom(L, t60_s=bad))
    ctx.raises("no_absorption", lambda: ra.ShoeboxRoom(L))
    ctx.raises("negative_dims", lambda: ra.ShoeboxRoom(-L, absorption_coefficient=0.5))


def modes(ctx):
    r, L, alpha = room(ctx)
    order = ctx.int("order", 1, 7)
    c = ctx.pick("c", [343.0, 340.0])
    m = r.get_room_modes(order, c)
    ctx.equal("mode_count", m.shape, ((order + 1) ** 3 - 1, 4))
    ctx.ok("mode_order", np.all(np.diff(m[:, 0]) >= 0))
    ctx.close("mode_frequency", m[:, 0], c / 2 * np.sqrt(np.sum((m[:, 1:] / L) ** 2, 1)), 1e-12)
    got = {tuple(int(v) for v in k) for k in m[:, 1:]}
    ctx.ok("mode_set", got == set(itertools.product(range(order + 1), repeat=3)) - {(0, 0, 0)})
    ctx.ok("mode_kept", np.array_equal(r.modes_hz, m))
    ctx.event("modes", len(m))
    # analytic transfer function
    s, q = ctx.rng.uniform(0, 1, 3) * L, ctx.rng.uniform(0, 1, 3) * L
    f = np.sort(ctx.rng.uniform(15, 300, 40))
    mo = ctx.int("tf_order", 1, 4)
    detailed = ctx.flag("detailed", 0.4)
    if detailed:
        r.add_detailed_absorption({w: ctx.rng.uniform(0.05, 0.9, 3) for w in WALLS})
    b = snap(r)
    p, ms, plot = r.get_analytical_transfer_function(s, q, f, mo, False, c)
    ctx.ok("tf_room_kept", diff(b, snap(r)) is None)
    ctx.ok("tf_no_plot", plot is None)
    ref = np.zeros(len(f), complex)
    w = 2 * np.pi * f
    for n in itertools.product(range(mo + 1), repeat=3):
        n = np.array(n)
        if not n.any():
            continue
        k = np.pi * n / L
        wn = c * np.sqrt(np.sum(k**2))
        if detailed:
            d = r.detailed_absorption
            T = d["t60_s_per_frequency"][np.argmin(np.abs(wn / 2 / np.pi - d["center_frequencies"]))]
        else:
            T = r.t60_s
        eta = np.log(1000) / T
        cn = {1: 4, 2: 2, 3: 1}[int(np.count_nonzero(n))]
        ref += np.prod(np.cos(k * s) * np.cos(k * q)) / (cn * (wn**2 + 2j * eta * wn - w**2))
    ref *= 8 * c**2 / np.prod(L)
    ctx.close("tf", p, ref, 1e-9, scale=np.max(np.abs(ref)))
    p2 = r.get_analytical_transfer_function(q, s, f, mo, False, c)[0]
    ctx.close("tf_reciprocity", p2, p, 1e-9, scale=np.max(np.abs(ref)))
    ctx.ok("tf_modes", ms.shape == ((mo + 1) ** 3 - 1, 4) and np.all(np.diff(ms[:, 0]) >= 0))


WALLS = ["north", "south", "east", "west", "floor", "ceiling"]


def bands(ctx):
    """Detailed absorption: equivalent areas of the six walls."""
    r, L, _ = room(ctx)
    nb = ctx.int("bands", 1, 8)
    given, full = {}, {}
    order = list(ctx.rng.permutation(WALLS))
    longest = int(ctx.rng.integers(6))
    for i, w in enumerate(order):
        m = nb if i == longest else int(ctx.rng.integers(1, nb + 1))
        a = ctx.rng.uniform(0.02, 0.98, m)
        given[w] = float(a[0]) if m == 1 and ctx.flag("s" + w) else (list(a) if ctx.flag("l" + w) else a)
        full[w] = np.concatenate([a, np.full(nb - m, a[-1])])
    b = snap(given)
    r.add_detailed_absorption(given)
    ctx.ok("dict_kept", diff(b, snap(given)) is None, str(diff(b, snap(given)))[:200])
    d = r.detailed_absorption
    area = L[0] * L[1] * (full["floor"] + full["ceiling"]) + L[0] * L[2] * (full["north"] + full["south"]) + L[1] * L[2] * (full["east"] + full["west"])
    S = 2 * (L[0] * L[1] + L[0] * L[2] + L[1] * L[2])
    ctx.close("absorption_area", d["absorption_area"], area, 1e-12)
    ctx.close("absorption_mean", d["mean_absorption_coefficients_per_frequency"], area / S, 1e-12)
    ctx.close("band_t60", d["t60_s_per_frequency"], 0.161 * np.prod(L) / area, 1e-12)
    ctx.close("band_centers", d["center_frequencies"], 125.0 * 2 ** np.arange(nb), 1e-12)
    for w in WALLS:
        ctx.close("matrix", d["absorption_matrix"][d["index_wall_dictionary"][w]], full[w], 1e-12)
        ctx.close("wall", d[w], full[w], 1e-12)
    wt = 2.0 ** np.arange(nb)
    a = np.sum(area / S * wt) / np.sum(wt)
    ctx.close("mean_absorption", r.absorption_coefficient, a, 1e-12)
    ctx.close("mean_t60", r.t60_s, 0.161 * np.prod(L) / (a * S), 1e-12)
    bad = dict(given)
    del bad[order[0]]
    ctx.raises("five_walls", lambda: ra.ShoeboxRoom(L, absorption_coefficient=0.5).add_detailed_absorption(bad))
    bad = dict(given)
    bad[order[0]] = 1.2
    ctx.raises("absorption_range", lambda: ra.ShoeboxRoom(L, absorption_coefficient=0.5).add_detailed_absorption(bad))


def images(L, beta, s, q, order, fs, n):
    """Sum over image sources; beta = reflection factors ((x0, xL), (y0, yL), (z0, zL))."""
    out = np.zeros(n + 2)
    amp_near = []  # those which fall close to the border between two samples
    rng = np.arange(-order, order + 1)
    axes = []
    for a in range(3):
        pos, damp = [], []
        for u in (0, 1):
            for l in rng:
                pos.append((1 - 2 * u) * s[a] + 2 * l * L[a] - q[a])
                damp.append(beta[a][0] ** abs(l - u) * beta[a][1] ** abs(l))
        axes.append((np.array(pos), np.array(damp)))
    d = np.sqrt(axes[0][0][:, None, None] ** 2 + axes[1][0][None, :, None] ** 2 + axes[2][0][None, None, :] ** 2).ravel()
    g = (axes[0][1][:, None, None] * axes[1][1][None, :, None] * axes[2][1][None, None, :]).ravel()
    pos = d / C * fs + 0.5
    i = pos.astype(int)
    keep = i < n
    frac = np.abs(pos - np.round(pos))
    unsure = np.zeros(n + 2)
    near = keep & (frac < 1e-6)
    for j in np.flatnonzero(near):
        k = int(round(pos[j]))
        unsure[max(k - 1, 0) : k + 1] += g[j] / (4 * np.pi * d[j])
    np.add.at(out, i[keep], g[keep] / (4 * np.pi * d[keep]))
    return out[:n], unsure[:n], int(np.sum(keep))


def positions(ctx, L):
    for _ in range(100):
        s, q = (ctx.rng.uniform(0.02, 0.98, 3) * L for _ in range(2))
        if ctx.notes_grid:
            s, q = np.round(s, 1), np.round(q, 1)
            s, q = np.clip(s, 0.1, L), np.clip(q, 0.1, L)
        if np.linalg.norm(s - q) > 0.3:
            return s, q
    return np.array([0.2, 0.2, 0.2]), L - 0.2


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def response(ctx):
    r, L, alpha = room(ctx, 2.0, 10.0)
    ctx.notes_grid = ctx.flag("grid", 0.4)
    s, q = positions(ctx, L)
    fs = ctx.pick("fs", [2000, 8000, 16000, 44100])
    order = ctx.int("order", 0, 3)
    full = int(np.ceil(np.linalg.norm(C * r.t60_s * 1.1 / 2 / L)))
    order = min(order, full)
    sec = ctx.uniform("sec", 0.03, 0.25)
    n = int(sec * fs)
    b = snap(r)
    rir = ra.generate_synthetic_rir(r, s if ctx.flag("arr") else list(s), q, fs, sec, max_order=order)
    ctx.ok("room_kept", diff(b, snap(r)) is None)
    ctx.ok("rir_type", type(rir) is dsp.ImpulseResponse and rir.sampling_rate_hz == fs and rir.time_data.shape == (n, 1))
    x = rir.time_data[:, 0]
    be = np.sqrt(1 - alpha)
    lim = min(n, int(r.t60_s * 1.1 * 5 * fs))
    ref, unsure, count = images(L, [(be, be)] * 3, s, q, order, fs, lim)
    scale = rir.amplitude_scale_factor if hasattr(rir, "amplitude_scale_factor") else 1.0
    err = np.abs(x[:lim] - ref)
    ctx.ok("images", np.all(err <= unsure + 1e-9 * np.max(np.abs(ref), initial=0)), f"max {np.max(err, initial=0)} at {np.argmax(err) if len(err) else -1}, {scale}")
    ctx.ok("nothing_beyond", not np.any(x[lim:]))
    d = np.linalg.norm(s - q)
    i = int(d / C * fs + 0.5)
    if i + 1 < n:
        first = int(np.flatnonzero(x)[0])
        ctx.ok("direct_time", abs(first - i) <= 1, f"{first} {i}")
        ctx.ok("direct_level", x[first] >= (1 - 1e-9) / (4 * np.pi * d))
    back = ra.generate_synthetic_rir(r, q, s, fs, sec, max_order=order).time_data[:, 0]
    ctx.ok("reciprocity", np.all(np.abs(back - x)[:lim] <= 2 * unsure + 1e-9 * np.max(np.abs(x), initial=0)))
    # mirroring the room
    a = int(ctx.rng.integers(3))
    s2, q2 = s.copy(), q.copy()
    s2[a], q2[a] = L[a] - s[a], L[a] - q[a]
    if order == full or order == 0:
        ctx.event("images", count)
    m, un2, _ = images(L, [(be, be)] * 3, s2, q2, order, fs, lim)
    y = ra.generate_synthetic_rir(r, s2, q2, fs, sec, max_order=order).time_data[:lim, 0]
    ctx.ok("mirrored", np.all(np.abs(y - m) <= un2 + 1e-9 * np.max(np.abs(m), initial=0)))
    # more absorption, less energy; the direct sound stays
    ctx.event("images", count)


def automatic(ctx):
    """Without a limit every reflection before the end is there."""
    L = ctx.rng.uniform(2, 6, 3)
    if ctx.flag("elongated", 0.3):
        L[int(ctx.rng.integers(3))] = ctx.rng.uniform(10, 25)
    alpha = ctx.uniform("alpha", 0.6, 0.95)
    r = ra.ShoeboxRoom(L, absorption_coefficient=alpha)
    ctx.note(f"L={L} t60={r.t60_s:.3f}")
    ctx.notes_grid = ctx.flag("grid", 0.3)
    s, q = positions(ctx, L)
    fs = ctx.pick("fs", [4000, 8000])
    sec = r.t60_s
    if (2 * np.ceil(np.linalg.norm(C * sec * 1.1 / 2 / L)) + 1) ** 3 > 40000:
        return
    x = ra.generate_synthetic_rir(r, s, q, fs, sec).time_data[:, 0]
    n = len(x)
    be = np.sqrt(1 - alpha)
    need = int(np.ceil(C * sec / 2 / np.min(L))) + 1
    ref, unsure, count = images(L, [(be, be)] * 3, s, q, need, fs, n)
    ctx.ok("automatic", np.all(np.abs(x - ref) <= unsure + 1e-9), f"{np.max(np.abs(x - ref))}")
    ctx.event("images", count)
    if n > fs * 0.1:
        e = np.sum(x**2)
        y = ra.generate_synthetic_rir(ra.ShoeboxRoom(L, absorption_coefficient=min(0.99, alpha + 0.04)), s, q, fs, sec, max_order=2).time_data[:, 0]
        z = ra.generate_synthetic_rir(r, s, q, fs, sec, max_order=2).time_data[:, 0]
        ctx.ok("absorbed", np.sum(y**2) <= np.sum(z**2) + 1e-12 and np.sum(z**2) <= e + 1e-12)


def detailed(ctx):
    """Each wall has its own factor (one band or several equal ones)."""
    L = ctx.rng.uniform(2, 6, 3)
    r = ra.ShoeboxRoom(L, absorption_coefficient=0.6)
    nb = ctx.int("bands", 1, 4)
    al = {w: float(ctx.rng.uniform(0.3, 0.99)) for w in WALLS}
    ctx.note(str({k: round(v, 3) for k, v in al.items()}))
    r.add_detailed_absorption({w: [v] * nb for w, v in al.items()})
    ctx.notes_grid = False
    s, q = positions(ctx, L)
    fs = ctx.pick("fs", [8000, 16000])
    order = ctx.int("order", 1, 2)
    order = min(order, int(np.ceil(np.linalg.norm(C * r.t60_s * 1.1 / 2 / L))))
    n = int(min(0.12, r.t60_s * 5) * fs)
    b = snap(r)
    x = quiet(lambda: ra.generate_synthetic_rir(r, s, q, fs, n / fs + 1e-9, use_detailed_absorption=True, max_order=order)).time_data[:, 0]
    ctx.ok("detailed_room_kept", diff(b, snap(r)) is None)
    be = {w: np.sqrt(1 - v) for w, v in al.items()}
    ref, unsure, count = images(L, [(be["west"], be["east"]), (be["south"], be["north"]), (be["floor"], be["ceiling"])], s, q, order, fs, n)
    ctx.ok("detailed", np.all(np.abs(x - ref) <= unsure + 1e-3 * np.max(ref, initial=0)), f"{np.max(np.abs(x - ref))} of {np.max(ref, initial=0)}")
    ctx.event("walls", 6)
    flat = ra.ShoeboxRoom(L, absorption_coefficient=0.6)
    ctx.raises("no_detailed", lambda: quiet(lambda: ra.generate_synthetic_rir(flat, s, q, fs, 0.05, use_detailed_absorption=True, max_order=1)))


def banded(ctx):
    """Different factors per band: in the middle of each band, the response
    is the one of a room with the factors of that band."""
    L = ctx.rng.uniform(4, 8, 3)
    r = ra.ShoeboxRoom(L, absorption_coefficient=0.3)
    nb = ctx.int("bands", 2, 6)
    al = {w: ctx.rng.uniform(0.05, 0.95, nb) for w in WALLS}
    if ctx.flag("contrast"):
        for k in range(nb):
            v = ctx.rng.choice([0.05, 0.95])
            for w in WALLS:
                al[w][k] = v
    ctx.note(str({k: np.round(v, 2).tolist() for k, v in al.items()}))
    r.add_detailed_absorption({w: v.copy() for w, v in al.items()})
    s, q = ctx.rng.uniform(0.1, 0.3, 3) * L, ctx.rng.uniform(0.6, 0.9, 3) * L
    fs = 16000
    order = 2
    n = int(0.25 * fs)
    x = quiet(lambda: ra.generate_synthetic_rir(r, s, q, fs, n / fs + 1e-9, use_detailed_absorption=True, max_order=order)).time_data[:, 0]
    ctx.ok("banded_length", len(x) == n, f"{len(x)} {n}")
    fc = 125 * 2.0 ** np.arange(nb)
    X = np.fft.rfft(x)
    f = np.fft.rfftfreq(n, 1 / fs)
    refs = []
    for b in range(nb):
        be = {w: np.sqrt(1 - v[b]) for w, v in al.items()}
        ref, unsure, _ = images(L, [(be["west"], be["east"]), (be["south"], be["north"]), (be["floor"], be["ceiling"])], s, q, order, fs, n)
        refs.append(np.fft.rfft(ref))
    scale = max(np.max(np.abs(R)) for R in refs)
    for b in range(nb):
        m = (f > fc[b] / 1.12) & (f < fc[b] * 1.12)
        err = np.max(np.abs(X - refs[b])[m]) / scale
        ctx.ok("band_factors", err < 0.03, f"band {b}: {err:.4f}")
    ctx.event("bands_seen", nb)


def extras(ctx):
    L = ctx.rng.uniform(2.5, 5, 3)
    alpha = ctx.uniform("alpha", 0.3, 0.7)
    r = ra.ShoeboxRoom(L, absorption_coefficient=alpha)
    ctx.notes_grid = False
    s, q = positions(ctx, L)
    fs = ctx.pick("fs", [8000, 16000])
    sec = 0.4
    plain = ra.generate_synthetic_rir(r, s, q, fs, sec, max_order=3).time_data[:, 0]
    r.get_mixing_time(ctx.pick("mix", ["perceptual", "physical"]))
    np.random.seed(int(ctx.rng.integers(2**31)))
    tail = ra.generate_synthetic_rir(r, s, q, fs, sec, add_noise_reverberant_tail=True, max_order=3).time_data[:, 0]
    nz = plain != 0
    ctx.ok("tail_finite", np.all(np.isfinite(tail)))
    ctx.close("tail_keeps_reflections", tail[nz], plain[nz], 1e-12)
    i0 = int(np.flatnonzero(nz)[0])
    mix = i0 + int(r.mixing_time_s * fs)
    ctx.ok("tail_after_mixing", np.array_equal(tail[: mix - 1], plain[: mix - 1]))
    ctx.ok("tail_present", np.any((tail != plain)[mix:]))
    added = tail - plain
    first = np.max(np.abs(added[mix : mix + int(0.1 * r.t60_s * fs) + 5]))
    # the level continues that of the reflections around the mixing time
    around = plain[max(mix - 45, 0) : mix + 45]
    around = around[around != 0]
    if len(around):
        ctx.ok("tail_level", first <= np.max(around), f"{first} {np.median(around)} {np.max(around)}")
    j = mix + int(0.5 * r.t60_s * fs)
    if j + 20 < len(added):
        late = np.max(np.abs(added[j:]))
        if np.count_nonzero(~nz[mix : mix + int(0.1 * r.t60_s * fs) + 5]) > 15:
            ctx.ok("tail_decays", late < first * 0.6, f"{late} {first}")
    bp = ra.generate_synthetic_rir(r, s, q, fs, sec, apply_bandpass=True, max_order=3).time_data[:, 0]
    sos = sig.butter(12, [20.0, fs // 2 * 0.9], "bandpass", fs=fs, output="sos")
    H = np.abs(sig.sosfreqz(sos, 2 * np.pi * np.fft.rfftfreq(8 * len(bp), 1 / fs) / fs)[1])
    B, P = (np.abs(np.fft.rfft(v, 8 * len(bp))) for v in (bp, plain))
    m = (np.fft.rfftfreq(8 * len(bp), 1 / fs) > 60)
    ctx.close("bandpass", B[m], (H * P)[m], 0.03, scale=np.max(P))
    ctx.event("extras", 2)


def convolution(ctx):
    s, x, fs = gen.array(ctx, 20, 3000), None, None
    x, fs = s[0], s[1]
    c = x.shape[1]
    m = ctx.pick("rir_len", [1, 5, 100, 1000, 4000])
    h = ctx.normal(m) * np.exp(-np.arange(m) / (m / 5 + 1))
    if ctx.flag("silent", 0.2):
        x = x.copy()
        x[:, int(ctx.rng.integers(c))] = 0
    S = dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)
    R = dsp.ImpulseResponse(None, h.copy(), fs, constrain_amplitude=False) if ctx.flag("ir") else dsp.Signal(None, h.copy(), fs, constrain_amplitude=False)
    if ctx.flag("cache"):
        S.get_spectrum()
    keep, length = ctx.flag("keep_peak"), ctx.flag("keep_length")
    b, br = snap(S), snap(R)
    out = ra.convolve_rir_on_signal(S, R, keep, length)
    ctx.ok("conv_inputs_kept", diff(b, snap(S)) is None and diff(br, snap(R)) is None)
    ref = np.stack([np.convolve(x[:, k], h) for k in range(c)], 1)
    ref = ref[: len(x)] if length else ref
    if keep:
        for k in range(c):
            p = np.max(np.abs(ref[:, k]))
            if p > 0:
                ref[:, k] *= np.max(np.abs(x[:, k])) / p
    ctx.equal("conv_shape", out.time_data.shape, ref.shape)
    for k in range(c):
        p = np.max(np.abs(ref[:, k]))
        ctx.close("convolution", out.time_data[:, k], ref[:, k], 1e-9, atol=1e-14, scale=p if p > 0 else None)
    ctx.ok("conv_rate", out.sampling_rate_hz == fs and type(out) is type(S))
    two = dsp.ImpulseResponse(None, np.stack([h, h], 1), fs) if m > 2 else None
    if two is not None:
        ctx.raises("conv_two_channels", lambda: ra.convolve_rir_on_signal(S, two))
    ctx.raises("conv_rates", lambda: ra.convolve_rir_on_signal(S, dsp.ImpulseResponse(None, h, fs + 1)))
    ctx.event("convolved", c)


MORE = 4  # times the number of cases below in the quick tier
FAMILIES = [
    Family("attributes", attributes, 120, 3000),
    Family("modes", modes, 40, 800),
    Family("bands", bands, 100, 2500),
    Family("response", response, 150, 4000),
    Family("automatic", automatic, 32, 400),
    Family("detailed", detailed, 60, 1500),
    Family("banded", banded, 12, 300),
    Family("extras", extras, 40, 1000),
    Family("convolution", convolution, 100, 2500),
]
