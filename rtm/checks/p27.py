"""P27: beamformers on simulated sound fields."""

import contextlib
import io
import warnings

import numpy as np
from scipy.integrate import simpson
import dsptoolbox as dsp
from dsptoolbox import beamforming as bf
from rtm.core import Family
from rtm.snap import snap, diff
from rtm.checks.p26 import xyz, euclid, definition

PROPERTY = "P27"
ST = bf.SteeringVectorType
BEAM = dict(das=bf.BeamformerDASFrequency, clean=bf.BeamformerCleanSC, orth=bf.BeamformerOrthogonal, func=bf.BeamformerFunctional, mvdr=bf.BeamformerMVDR)


def silent(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def field(ctx, r, sources, levels, fs, n, c, noise=1e-4, seed=None):
    """Microphone signals of uncorrelated monopoles (p = level at the array
    center's microphone times r0/r), exact circular delays."""
    rng = np.random.default_rng(seed) if seed is not None else ctx.rng
    f = np.fft.rfftfreq(n, 1 / fs)
    ctr = np.argmin(euclid(r, np.mean(r, 0)[None])[:, 0])
    X = np.zeros((len(f), len(r)), complex)
    for p, l in zip(sources, levels):
        S = np.exp(2j * np.pi * rng.random(len(f))) * ((f > 50) & (f < 0.47 * fs)) * np.sqrt(n)
        d = euclid(r, p[None])[:, 0]
        X += l * S[:, None] * d[ctr] / d[None] * np.exp(-2j * np.pi * f[:, None] * (d[None] - d[ctr]) / c)
    x = np.fft.irfft(X, n, axis=0)
    return x + rng.normal(size=x.shape) * noise * np.max(levels)


def scene(ctx, nsrc=None, m=(10, 18)):
    fs = ctx.pick("fs", [16000, 44100])
    c = ctx.pick("c", [343.0, 335.0])
    wl = ctx.pick("wl", [512, 1024])
    M = ctx.int("mics", *m)
    ang, rad = ctx.rng.uniform(0, 2 * np.pi, M), 0.6 * np.sqrt(ctx.rng.random(M))
    r = np.stack([rad * np.cos(ang), rad * np.sin(ang), ctx.rng.normal(size=M) * 0.02], 1)
    z = ctx.uniform("z", 0.8, 1.6)
    l1 = np.linspace(-0.8, 0.8, 6)
    l2 = np.linspace(-0.6, 0.6, 5)
    grid = bf.Regular2DGrid(l1, l2, ["x", "y"], z)
    g = grid.coordinates
    k = nsrc or ctx.int("sources", 1, 2)
    idx = []
    while len(idx) < k:
        i = int(ctx.rng.integers(len(g)))
        if all(np.linalg.norm(g[i] - g[j]) > 0.6 for j in idx):
            idx.append(i)
    lv = [1.0, 0.2][:k]
    fc = ctx.uniform("fc", 2000, 4500)
    return fs, c, wl, r, grid, idx, lv, fc


def build(x, fs, wl):
    s = dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)
    s.set_spectrum_parameters(method=dsp.SpectrumMethod.WelchPeriodogram, window_length_samples=wl, overlap_percent=50, detrend=False, scaling=dsp.SpectrumScaling.PowerSpectralDensity)
    return s


def csm_of(x, fs, wl):
    """Independent cross-spectral matrix (density) for checking levels."""
    w = np.hanning(wl + 1)[:-1]
    st = range(0, len(x) - wl + 1, wl // 2)
    X = np.stack([np.fft.rfft(x[i : i + wl] * w[:, None], axis=0) for i in st])
    return np.fft.rfftfreq(wl, 1 / fs), np.einsum("tfi,tfj->fij", X, X.conj()) / len(X) / fs / np.sum(w**2) * 2


def band(f, fc, frac):
    i1, i2 = (int(np.argmin(np.abs(f - fc * 2 ** (s / frac / 2)))) for s in (-1, 1))
    return np.arange(i1, max(i2, i1 + 1))


def integrate(v, f):
    return simpson(v, dx=f[1] - f[0], axis=-1) if v.shape[-1] > 1 else v[..., 0]


def run(name, s, r, grid, kind, c, fc, frac, **kw):
    b = BEAM[name](s, bf.MicArray(xyz(r)), grid, bf.SteeringVector(kind), c)
    return silent(lambda: b.get_beamformer_map(fc, frac, **kw)), b


def options(ctx, name, M):
    if name == "das":
        return dict(remove_csm_diagonal=ctx.flag("diag"))
    if name == "clean":
        return dict(safety_factor=ctx.pick("gain", [0.3, 0.5, 1.0]), remove_csm_diagonal=ctx.flag("diag"))
    if name == "orth":
        return dict(number_eigenvalues=ctx.pick("eig", [None, 1, 3, M]))
    if name == "func":
        return dict(gamma=ctx.pick("gamma", [1, 4, 10, 30]))
    return {}


def reference(ctx):
    """Maps against the definitions, from the reported cross spectra."""
    fs, c, wl, r, grid, idx, lv, fc = scene(ctx)
    M = len(r)
    kind = ctx.pick("kind", list(ST))
    name = ctx.pick("beamformer", ["das", "orth", "func", "mvdr"])
    frac = ctx.pick("fraction", [0, 3, 6, 24])
    g = grid.coordinates
    x = field(ctx, r, g[idx], lv, fs, wl * 24, c, 1e-2)
    s = build(x, fs, wl)
    b = snap(s)
    kw = options(ctx, name, M)
    m, obj = run(name, s, r, grid, kind, c, fc, frac, **kw)
    ctx.ok("signal_kept", diff(b, snap(s)) is None, str(diff(b, snap(s)))[:200])
    ctx.equal("map_shape", m.shape, (6, 5))
    f, C = s.get_csm()
    sel = band(f, fc, frac) if frac else np.array([int(np.argmin(np.abs(f - fc)))])
    f, C = f[sel], C[sel]
    ctx.close("range", obj.f_range_hz, [f[0], f[-1]], 1e-9)
    h = definition(kind, 2 * np.pi * f / c, g, r, bf.MicArray(xyz(r)).array_center_coordinates)
    q = lambda A: np.einsum("fig,fij,fjg->gf", h.conj(), A, h).real
    if name == "das":
        if kw["remove_csm_diagonal"]:
            D = C * M / (M - 1)
            D[:, np.arange(M), np.arange(M)] = 0
            ref = np.maximum(q(D), 0)
        else:
            ref = q(C)
    elif name == "func":
        w, v = np.linalg.eigh(C)
        nn = np.sum(np.abs(h) ** 2, 1).T
        R = np.einsum("fie,fe,fje->fij", v, np.maximum(w, 0) ** (1 / kw["gamma"]), v.conj())
        ref = (q(R) / nn) ** kw["gamma"] * nn
    elif name == "mvdr":
        ref = 1 / q(np.linalg.inv(C))
    else:
        w, v = np.linalg.eigh(C)
        K = kw["number_eigenvalues"] or M // 2
        ref = np.zeros((len(g), len(f)))
        for i in range(len(f)):
            for e in range(K):
                pr = np.abs(h[i].conj().T @ v[i, :, -1 - e]) ** 2
                k = np.argmax(pr)
                ref[k, i] += pr[k] * w[i, -1 - e]
    ctx.close("map_" + name, m.ravel(), integrate(ref, f), 1e-6, scale=np.max(np.abs(ref)) * (f[-1] - f[0] + 1))
    ctx.close("map_kept", obj.map, m, 0, atol=0)
    again = silent(lambda: obj.get_beamformer_map(fc, frac, **kw))
    ctx.close("repeatable", again, m, 1e-12)
    m[:] = 0
    ctx.ok("map_isolated", np.any(obj.map))
    ctx.event("maps", 2)


def location(ctx):
    """The peak stands at the dominant source; power where represented."""
    fs, c, wl, r, grid, idx, lv, fc = scene(ctx, m=(14, 22))
    M = len(r)
    kind = ctx.pick("kind", list(ST))
    g = grid.coordinates
    x = field(ctx, r, g[idx], lv, fs, wl * 40, c, 3e-3)
    fi, C = csm_of(x, fs, wl)
    sel = band(fi, fc, 3)
    ctr = int(np.argmin(euclid(r, np.mean(r, 0)[None])[:, 0]))
    own = integrate(C[sel, ctr, ctr].real[None], fi[sel])[0]
    own *= lv[0] ** 2 / sum(l**2 for l in lv)
    d = euclid(r, g[idx[0]][None])[:, 0]
    d0 = d[ctr]
    gain = {ST.Classic: np.mean(d0 / d), ST.Inverse: 1.0, ST.TruePower: 1.0, ST.TrueLocation: np.sqrt(np.sum((d0 / d) ** 2) / M)}[kind]
    for name in BEAM:
        kw = {} if name != "clean" else dict(remove_csm_diagonal=ctx.flag("clean_diag"))
        if name == "das":
            kw = dict(remove_csm_diagonal=ctx.flag("das_diag"))
        s = build(x, fs, wl)
        m, _ = run(name, s, r, grid, kind, c, fc, 3, **kw)
        m = m.ravel()
        ctx.ok("finite_" + name, np.all(np.isfinite(m)))
        ctx.ok("nonnegative_" + name, np.min(m) >= -1e-9 * np.max(m), f"{np.min(m)} {np.max(m)}")
        at = int(np.argmax(m))
        ctx.ok("peak_" + name, at == idx[0], f"{g[at]} instead of {g[idx[0]]}, {m[at] / m[idx[0]]}")
        e = 10 * np.log10(m[idx[0]] / own)
        if name != "mvdr":
            want = 20 * np.log10(gain)
            ctx.ok("level_" + name, (-3.0 if name == "func" else -1.0) < e - want < 1.0, f"{e} instead of {want}")
        ctx.event("maps", 1)


def relations(ctx):
    """Power scaling, relabelled microphones, moved scene, reordered grid."""
    fs, c, wl, r, grid, idx, lv, fc = scene(ctx)
    M = len(r)
    kind = ctx.pick("kind", list(ST))
    name = ctx.pick("beamformer", list(BEAM))
    frac = ctx.pick("fraction", [1, 3, 12])
    g = grid.coordinates
    x = field(ctx, r, g[idx], lv, fs, wl * 24, c, 1e-2)
    kw = options(ctx, name, M)
    m, _ = run(name, build(x, fs, wl), r, grid, kind, c, fc, frac, **kw)
    sc = np.max(m)
    # deconvolution takes discrete decisions: bit-exact relations only
    a = ctx.pick("gain2", [2.0**-8, 0.5, 4.0, 64.0])
    t, _ = run(name, build(x * a, fs, wl), r, grid, kind, c, fc, frac, **kw)
    ctx.close("power", t, m * a**2, 1e-6, scale=sc * a**2)
    p = ctx.rng.permutation(M)
    tol = 1e-5
    t, _ = run(name, build(x[:, p], fs, wl), r[p], grid, kind, c, fc, frac, **kw)
    ctx.close("relabelled", t, m, tol, scale=sc)
    sh = ctx.rng.normal(size=3) * 3
    co = g + sh
    moved = bf.Grid(xyz(co))
    t, _ = run(name, build(x, fs, wl), r + sh, moved, kind, c, fc, frac, **kw)
    ctx.close("moved", t, m.ravel(), tol, scale=sc)
    q = ctx.rng.permutation(len(g))
    t, _ = run(name, build(x, fs, wl), r, bf.Grid(xyz(g[q])), kind, c, fc, frac, **kw)
    ctx.close("grid_order", t, m.ravel()[q], tol, scale=sc)
    if name in ("das", "func", "mvdr"):
        one = int(ctx.rng.integers(len(g)))
        t, _ = run(name, build(x, fs, wl), r, bf.Grid(dict(x=g[one, 0], y=g[one, 1], z=g[one, 2])), kind, c, fc, frac, **kw)
        ctx.close("single_point", t, m.ravel()[[one]], tol, scale=sc)
    ctx.event("maps", 5)


def deconvolved(ctx):
    """CleanSC: one or more frequencies; a single source is concentrated at its place with its power."""
    fs, c, wl, r, grid, idx, lv, fc = scene(ctx, nsrc=1, m=(14, 22))
    g = grid.coordinates
    kind = ctx.pick("kind", [ST.TrueLocation, ST.TruePower, ST.Inverse])
    frac = ctx.pick("fraction", [0, 0, 6])
    x = field(ctx, r, g[idx], [1.0], fs, wl * 24, c, 1e-3)
    s = build(x, fs, wl)
    b = snap(s)
    diagonal, it, gain = ctx.flag("diagonal"), ctx.pick("iterations", [5, 20, 60, None]), ctx.pick("safety", [0.5, 0.9, 0.3, 0.2, 1.0])
    m, obj = run("clean", s, r, grid, kind, c, fc, frac, remove_csm_diagonal=diagonal, maximum_iterations=it, safety_factor=gain)
    left = (1 - gain) ** (2 * len(r) if it is None else it)  # of the source in the signals
    ctx.ok("clean_signal_kept", diff(b, snap(s)) is None)
    ctx.equal("clean_shape", m.shape, (6, 5))
    f = s.get_csm()[0]
    sel = band(f, fc, frac) if frac else np.array([int(np.argmin(np.abs(f - fc)))])
    ctx.close("clean_range", obj.f_range_hz, [f[sel[0]], f[sel[-1]]], 1e-9)
    flat = m.ravel()
    ctx.equal("clean_peak", int(np.argmax(flat)), idx[0])
    others = np.delete(flat, idx[0])
    ctx.ok("clean_concentrated", np.max(np.abs(others)) < 0.05 * flat[idx[0]], f"{np.max(np.abs(others)) / flat[idx[0]]}")
    if frac == 0:
        d, _ = run("das", s, r, grid, kind, c, fc, 0, remove_csm_diagonal=False)
        ctx.event("clean_levels")
        e = flat[idx[0]] / d.ravel()[idx[0]] / (1 - left)
        ctx.ok("clean_level", (-0.6 if diagonal else -0.1) < 10 * np.log10(e) < 0.1, f"{10 * np.log10(e)} {diagonal} {it} {gain}")


def cleaned(ctx):
    """CleanSC against the published procedure, step by step."""
    fs, c, wl, r, grid, idx, lv, fc = scene(ctx)
    g = grid.coordinates
    kind = ctx.pick("kind", list(ST))
    x = field(ctx, r, g[idx], lv, fs, wl * 24, c, ctx.pick("noise", [1e-2, 0.1]))
    s = build(x, fs, wl)
    diagonal, it, gain = ctx.flag("diagonal"), ctx.int("iterations", 1, 8), ctx.pick("safety", [0.5, 0.9, 0.3, 1.0])
    m, obj = run("clean", s, r, grid, kind, c, fc, 0, remove_csm_diagonal=diagonal, maximum_iterations=it, safety_factor=gain)
    f, C = s.get_csm()
    k = int(np.argmin(np.abs(f - fc)))
    f, D = f[k : k + 1], C[k].copy()
    h = definition(kind, 2 * np.pi * f / c, g, r, bf.MicArray(xyz(r)).array_center_coordinates)[0]  # mic, point
    q = lambda A: np.einsum("ig,ij,jg->g", h.conj(), A, h).real
    off = lambda A: A - np.diag(np.diag(A)) if diagonal else A
    D = off(D)
    dirty, out = q(D), np.zeros(len(g))
    norms = [np.inf]
    gap = np.inf
    for _ in range(it):
        j = int(np.argmax(dirty))
        top = np.sort(dirty)
        gap = min(gap, (top[-1] - top[-2]) / top[-1] if top[-1] > 0 else 0)
        P = dirty[j]
        out[j] += gain * P
        norms.append(np.max(np.sum(np.abs(D), 0)))
        gap = min(gap, abs(norms[-1] / norms[-2] - 1))
        if norms[-1] >= norms[-2]:
            break
        w = h[:, j]
        d = D @ w / P
        v = w.copy()
        if diagonal:
            for _ in range(20):
                H = np.abs(v) ** 2
                v = (d + H * w) / np.sqrt(1 + np.sum(H * np.abs(w) ** 2))
        else:
            v = d
        G = off(np.outer(v, v.conj()) * P)
        dirty = dirty - gain * q(G)
        D = D - gain * G
    if gap < 1e-6:
        ctx.note("undecided order")
        return
    ctx.close("procedure", m.ravel(), out, 1e-4)
    ctx.event("steps", it)


def pulse(t, t0, f, w):
    return np.exp(-0.5 * ((t - t0) / w) ** 2) * np.cos(2 * np.pi * f * (t - t0))


def steered(ctx):
    """Time-domain delay and sum: the pulse comes back in shape and time."""
    fs = ctx.pick("fs", [8000, 16000, 44100])
    c = ctx.pick("c", [343.0, 335.0])
    n = int(0.05 * fs)
    M = ctx.int("mics", 2, 12)
    r = ctx.rng.normal(size=(M, 3)) * [0.4, 0.4, 0.02]
    k = ctx.int("grid", 1, 4)
    g = ctx.rng.uniform(-1, 1, (k, 3)) * [0.8, 0.8, 0] + [0, 0, ctx.uniform("z", 0.7, 2)]
    at = int(ctx.rng.integers(k))
    f0 = ctx.uniform("f0", 0.04, 0.12) * fs
    w, t0 = min(2.5 / f0, 0.004), 0.02
    d = euclid(r, g[at][None])[:, 0]
    t = np.arange(n) / fs
    lib = ctx.flag("library_source")
    if lib:
        e = dsp.Signal(None, pulse(t, t0, f0, w), fs, constrain_amplitude=False)
        s = bf.MonopoleSource(e, g[at]).get_signals_on_array(bf.MicArray(xyz(r)), c)
        amp = np.mean(d / (1 + d))
    else:
        x = np.stack([pulse(t - q / c, t0, f0, w) / q for q in d], 1)
        s = dsp.Signal(None, x, fs, constrain_amplitude=False)
        amp = 1.0
    b = snap(s)
    out = silent(lambda: bf.BeamformerDASTime(s, bf.MicArray(xyz(r)), bf.Grid(xyz(g)), c).get_beamformer_output())
    ctx.ok("time_input_kept", diff(b, snap(s)) is None)
    he = sorted(float(v) for v in ctx.rng.uniform(0.5, 20, 2))
    ap = np.max(euclid(r, r))
    B = bf.BeamformerDASFrequency(s, bf.MicArray(xyz(r)), bf.Grid(xyz(g)), bf.SteeringVector(ST.Classic), c)
    ctx.close("helmholtz_range", B.get_frequency_range_from_he(he), np.array(he) * c / ap, 1e-10)
    ctx.ok("time_shape", out.number_of_channels == k and out.sampling_rate_hz == fs and out.length_samples >= n)
    r0 = np.max(euclid(r, g))
    y = out.time_data[:, at]
    ref = amp * pulse(np.arange(len(y)) / fs - r0 / c, t0, f0, w)
    ctx.close("focused", y, ref, 8e-3 if not lib else 1.5e-2, scale=amp)
    # other points hold the delayed-and-summed signals
    x = s.time_data
    for j in range(k):
        dj = euclid(r, g[j][None])[:, 0]
        L = len(y)
        F = np.fft.rfftfreq(4 * L, 1 / fs)
        S = np.fft.rfft(x, 4 * L, axis=0) * np.exp(-2j * np.pi * F[:, None] * (r0 - dj) / c) * dj
        ref = np.fft.irfft(np.mean(S, 1), 4 * L)[:L]
        ctx.close("delay_and_sum", out.time_data[:, j], ref, 1e-2, scale=np.max(np.abs(x)) * np.max(dj))
    ctx.event("steered", k)


def refusals(ctx):
    fs, c, wl, r, grid, idx, lv, fc = scene(ctx)
    x = ctx.rng.normal(size=(4 * wl, len(r)))
    s = build(x, fs, wl)
    mics = bf.MicArray(xyz(r))
    sv = bf.SteeringVector(ST.Classic)
    B = BEAM[ctx.pick("beamformer", list(BEAM))]
    ctx.raises("mic_count", lambda: B(build(x[:, :-1], fs, wl), mics, grid, sv))
    ctx.raises("speed", lambda: B(s, mics, grid, sv, -3))
    ctx.raises("no_grid", lambda: B(s, mics, mics, sv))
    ctx.raises("no_steering", lambda: B(s, mics, grid, lambda *a: 1))
    ctx.raises("eigenvalues", lambda: silent(lambda: BEAM["orth"](s, mics, grid, sv).get_beamformer_map(fc, 3, number_eigenvalues=len(r) + 1)))
    ctx.raises("loop_gain", lambda: silent(lambda: BEAM["clean"](s, mics, grid, sv).get_beamformer_map(fc, 3, safety_factor=1.5)))
    ctx.event("refused", 6)


FAMILIES = [
    Family("reference", reference, 60, 1200),
    Family("location", location, 16, 300),
    Family("deconvolved", deconvolved, 40, 600),
    Family("relations", relations, 30, 600),
    Family("cleaned", cleaned, 12, 300),
    Family("steered", steered, 40, 800),
    Family("refusals", refusals, 10, 50),
]
