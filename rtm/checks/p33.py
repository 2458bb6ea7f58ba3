"""P33: helper mathematics and sample formats."""

import sys
import warnings

import numpy as np
import dsptoolbox as dsp
from dsptoolbox import tools as tl
from rtm.core import Family
from rtm import gen

PROPERTY = "P33"
SC = dsp.SpectrumScaling
FORMATS = ["f32", "f64", "i8", "i16", "i24", "i32", "u8", "u16", "u24", "u32"]


def silent(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def bits(f):
    return int(f[1:])


def top(f):
    return 1.0 if f[0] == "f" else float(2 ** (bits(f) - 1) - 1)


def rest(f):
    return top(f) if f[0] == "u" else 0.0


def samples(ctx, f, n):
    """Values of a format, with its edges, as an array of a fitting type."""
    if f[0] == "f":
        x = np.concatenate([ctx.rng.uniform(-1.2, 1.2, n), [0, 1, -1, 0.5, -0.5, 2.0, -3.0, 1e-12, -1e-9, 0.99999997]])
        return x.astype(np.float32 if f == "f32" else np.float64)
    m = int(top(f))
    lo, hi = (-m, m) if f[0] == "i" else (0, 2 * m)
    x = ctx.rng.integers(lo, hi + 1, n)
    near = ctx.rng.integers(-40, 41, n // 2) + int(rest(f))
    x = np.concatenate([x, near, [lo, hi, (lo + hi) // 2, lo + 1, hi - 1]])
    if ctx.flag("beyond", 0.3):
        x = np.concatenate([x, [-m - 1] if f[0] == "i" else [2 * m + 1]])
    kind = {"i": "int", "u": "uint"}[f[0]] + str({8: 8, 16: 16, 24: 32, 32: 32}[bits(f)])
    x = x.astype(kind)
    return x.astype(np.float64) if ctx.flag("as_float", 0.2) else x


def pack(x, f):
    """Bytes of the values of a format."""
    if f == "f32":
        return x.astype(np.float32).tobytes()
    if f == "f64":
        return x.astype(np.float64).tobytes()
    n = bits(f) // 8
    return b"".join(int(v).to_bytes(n, sys.byteorder, signed=f[0] == "i") for v in x.ravel())


def unpack(b, f):
    n = bits(f) // 8
    if f[0] == "f":
        return np.frombuffer(b, np.float32 if f == "f32" else np.float64)
    return np.array([int.from_bytes(b[i : i + n], sys.byteorder, signed=f[0] == "i") for i in range(0, len(b), n)], dtype=np.float64)


def formats(ctx):
    """Conversion between all pairs of formats."""
    a = ctx.pick("from", FORMATS)
    b = ctx.pick("to", [f for f in FORMATS if f != a])
    n = ctx.int("n", 2, 80)
    x = samples(ctx, a, n)
    two = ctx.flag("two_dimensions", 0.3)
    if two:
        x = x[: len(x) // 2 * 2].reshape(-1, 2)
    keep = x.copy()
    v = np.clip((x.astype(np.float64) - rest(a)) / top(a), -1, 1)
    ref = v * top(b) + rest(b)
    cast = ctx.flag("cast") and b not in ("i24", "u24")
    name = (a.upper() if ctx.flag("upper", 0.2) else a, b.upper() if ctx.flag("upper_out", 0.2) else b)
    y, eq, span = silent(lambda: tl.convert_sample_representation(x, *name, cast))
    ctx.equal("input_kept", x, keep)
    ctx.ok("shape", y.shape == x.shape)
    ctx.ok("range_info", eq == rest(b) and span == top(b), f"{eq} {span}")
    tol = {"f32": 1.2e-7, "f64": 1e-15}.get(b, 1.0 - 1e-9 if a != b else 0)
    # rounding of the fixed-point value up to one step
    err = np.abs(y.astype(np.float64) - ref)
    ctx.ok("value", bool(np.all(err <= tol + 1e-9 * (b[0] != "f"))), f"{np.max(err)} at {x.ravel()[np.argmax(err)]}")
    z = y.astype(np.float64)
    ctx.ok("in_range", bool(np.all(z <= eq + span) and np.all(z >= eq - span)), f"{z.min()} {z.max()}")
    if b[0] != "f":
        ctx.ok("whole_numbers", bool(np.all(z == np.round(z))))
        if cast:
            ctx.ok("dtype", y.dtype == np.dtype(("int" if b[0] == "i" else "uint") + str(bits(b))), str(y.dtype))
        else:
            ctx.ok("dtype_float", y.dtype == np.float64, str(y.dtype))
    order = np.argsort(x.ravel(), kind="stable")
    ctx.ok("monotonic", bool(np.all(np.diff(z.ravel()[order]) >= 0)))
    full = v.ravel()
    for val, name_ in ((1.0, "max"), (-1.0, "min"), (0.0, "rest")):
        sel = z.ravel()[full == val]
        ctx.ok("full_scale_" + name_, bool(np.all(sel == val * span + eq)), f"{sel}")
    # and back, for values inside of the symmetric range
    finer = {"f32": 24, "f64": 53}.get(b, bits(b)) >= {"f32": 24, "f64": 53}.get(a, bits(a))
    if a[0] == "f":
        finer = a == "f32" and b == "f64"
    if finer:
        w = silent(lambda: tl.convert_sample_representation(y, b, a, a not in ("i24", "u24")))[0]
        inside = np.abs(x.astype(np.float64) - rest(a)) <= top(a)
        bad = (w != x) & inside
        ctx.ok("restored", not np.any(bad), f"{np.sum(bad)} of {bad.size}, {x[bad][:3]} -> {w[bad][:3]}")
        ctx.event("round_trips", int(np.sum(inside)))


def byte_formats(ctx):
    """Reading and writing bytes."""
    a = ctx.pick("from", FORMATS)
    b = ctx.pick("to", [f for f in FORMATS if f != a])
    x = samples(ctx, a, ctx.int("n", 2, 60))
    ref, eq, span = silent(lambda: tl.convert_sample_representation(x, a, b, False))
    got = silent(lambda: tl.convert_sample_representation(pack(x, a), a, b, False))[0]
    if a[0] == "f" and a == "f64" and x.dtype != np.float64:
        return
    ctx.close("from_bytes", got, ref, 1e-12 if b != "f32" else 1e-7, scale=max(span, 1))
    if b[0] != "f":
        out = silent(lambda: tl.convert_sample_representation(x, a, b, True, True))[0]
        ctx.ok("is_bytes", type(out) is bytes)
        ctx.equal("size", len(out), x.size * bits(b) // 8)
        ctx.equal("to_bytes", unpack(out, b), ref)
        both = silent(lambda: tl.convert_sample_representation(pack(x, a), a, b, True, True))[0]
        ctx.equal("bytes_to_bytes", unpack(both, b), ref)
        if b in ("i24", "u24"):
            ctx.raises("no_24_bit_array", lambda: tl.convert_sample_representation(x, a, b, True, False))
    ctx.raises("same", lambda: tl.convert_sample_representation(x, a, a))
    ctx.raises("unknown", lambda: tl.convert_sample_representation(x, a, "i12"))


def levels(ctx):
    """Decibels."""
    shape = ctx.pick("shape", [(5,), (7, 3), (1,), (2, 3, 4)])
    x = 10 ** ctx.rng.uniform(-30, 12, shape) * np.where(ctx.rng.random(shape) < 0.5, -1, 1)
    if ctx.flag("complex", 0.2):
        x = x * np.exp(1j * ctx.rng.uniform(0, 6, shape))
    amp = ctx.flag("amplitude")
    fac = 20 if amp else 10
    keep = x.copy()
    db = tl.to_db(x, amp)
    ctx.close("definition", db, fac * np.log10(np.abs(x)), 1e-12)
    ctx.close("inverse", tl.from_db(db, amp), np.abs(x), 1e-9, atol=0)
    l = ctx.rng.uniform(-300, 300, shape)
    ctx.close("inverse_2", tl.to_db(tl.from_db(l, amp), amp), l, 0, 1e-9)
    ctx.close("from_definition", tl.from_db(l, amp) / 10 ** (l / fac), np.ones(shape), 1e-12)
    dyn = ctx.pick("range", [0, 20.0, -60, 120])
    d = tl.to_db(x, amp, dyn)
    want = np.maximum(fac * np.log10(np.abs(x)), np.max(fac * np.log10(np.abs(x))) - abs(dyn))
    ctx.close("dynamic_range", d, want, 0, 1e-9)
    mv = 10 ** ctx.rng.uniform(-20, 5)
    ctx.close("min_value", tl.to_db(x, amp, None, mv), fac * np.log10(np.maximum(np.abs(x), mv)), 0, 1e-9)
    z = tl.to_db(np.zeros(3), amp)
    ctx.ok("zero", bool(np.all(np.isfinite(z))) and np.all(z < -3000 if amp else z < -1500))
    ctx.ok("scalar", abs(float(tl.to_db(0.5, True)) - 20 * np.log10(0.5)) < 1e-12 and tl.from_db(-20.0, True) == 0.1)
    ctx.equal("input_kept", x, keep)
    p = ctx.rng.uniform(-500, 500, shape)
    w = tl.wrap_phase(p)
    ctx.ok("wrapped", bool(np.all(w >= -np.pi) and np.all(w <= np.pi)))
    ctx.close("same_angle", np.exp(1j * w), np.exp(1j * p), 1e-10)
    q = ctx.rng.uniform(-3.1, 3.1, shape)
    ctx.close("unchanged_angle", tl.wrap_phase(q), q, 1e-12, scale=3)


def frequencies(ctx):
    """Frequency vectors."""
    lo = ctx.logu("lo", 0.1, 5e3)
    hi = lo * ctx.pick("ratio", [1.01, 1.5, 2, 4, 8, 10, 33.3, 1000])
    n = ctx.pick("per_octave", [1, 2, 3, 5, 12, 100])
    f = tl.log_frequency_vector([lo, hi], n)
    ctx.close("first", f[0], lo, 1e-12)
    if len(f) > 1:
        ctx.close("spacing", np.log2(f[1:] / f[:-1]), np.full(len(f) - 1, 1 / n), 1e-9)
    ctx.ok("within", f[-1] <= hi * (1 + 1e-9), f"{f[-1]} {hi}")
    ctx.ok("up_to_the_end", f[-1] * 2 ** (1 / n) >= hi * (1 - 1e-9), f"{f[-1]} {hi}")
    ctx.raises("zero", lambda: tl.log_frequency_vector([0, hi], n))
    # ERB
    lo, hi = sorted(ctx.rng.uniform(20, 20e3, 2))
    res = ctx.pick("resolution", [1, 0.5, 0.1, 2.3])
    ref = ctx.pick("reference", [1000, 500.0, 10, 19e3])
    given = [hi, lo] if ctx.flag("swapped") else [lo, hi]
    keep = list(given)
    given_ = {0: given, 1: tuple(given), 2: np.array(given)}[ctx.int("container", 0, 2)]
    e = tl.erb_frequencies(given_, res, ref)
    ctx.ok("erb_input", list(given_) == keep)
    scale = lambda u: 9.2645 * np.log(1 + u * 0.00437)
    ctx.ok("erb_range", bool(np.all(e >= lo * (1 - 1e-9)) and np.all(e <= hi * (1 + 1e-9))), f"{e} {lo} {hi}")
    s = (scale(e) - scale(ref)) / res
    ctx.close("erb_grid", s, np.round(s), 0, 1e-7)
    ctx.close("erb_spacing", np.diff(s), np.ones(max(len(s) - 1, 0)), 1e-7)
    k = (scale(np.array([lo, hi])) - scale(ref)) / res
    many = int(np.floor(k[1] + 1e-9) - np.ceil(k[0] - 1e-9)) + 1
    few = int(np.floor(k[1] - 1e-9) - np.ceil(k[0] + 1e-9)) + 1
    ctx.ok("erb_complete", few <= len(e) <= many, f"{len(e)} not in {few}..{many}")
    # fractional octaves
    N = ctx.pick("fraction", [1, 3, 2, 4, 6, 12, 24])
    lo, hi = float(ctx.logu("flo", 20, 800)), float(ctx.logu("fhi", 1200, 20e3))
    nom, ex, (lc, uc) = tl.fractional_octave_frequencies(N, (lo, hi), True)
    two = tl.fractional_octave_frequencies(N, (lo, hi))
    ctx.ok("without_cutoff", len(two) == 2 and np.array_equal(two[1], ex) and np.array_equal(two[0], nom))
    st = N * np.log2(ex / 1000) if N not in (1, 3) else N * np.log10(ex / 1000) / 0.3
    off = 0.0 if np.abs(st[0] - np.round(st[0])) < 0.25 else 0.5
    ctx.close("octave_grid", st + off, np.round(st + off), 0, 0.03)
    ctx.close("octave_spacing", np.log2(ex[1:] / ex[:-1]) * N, np.ones(len(ex) - 1), 0.01)
    ctx.close("octave_lower", np.log2(ex / lc) * N, np.full(len(ex), 0.5), 0.01)
    ctx.close("octave_upper", np.log2(uc / ex) * N, np.full(len(ex), 0.5), 0.01)
    half = 2 ** (0.51 / N)
    ctx.ok("octave_range", ex[0] >= lo / half and ex[-1] <= hi * half, f"{ex[0]} {ex[-1]} {lo} {hi}")
    ctx.ok("octave_complete", (ex[0] / 2 ** (1 / N) <= lo * half) and (ex[-1] * 2 ** (1 / N) >= hi / half or hi > 19e3), f"{ex[0]} {ex[-1]} {lo} {hi}")
    if N in (1, 3):
        ctx.ok("nominal", len(nom) == len(ex) and bool(np.all(np.abs(nom / ex - 1) < 0.03)) and nom[0] >= lo and nom[-1] <= hi, f"{nom}")
    else:
        ctx.equal("no_nominal", len(nom), 0)
    # warping
    fs = ctx.pick("fs", gen.FS)
    lam = ctx.uniform("lambda", -0.95, 0.95)
    g = np.linspace(0, fs / 2, ctx.int("points", 3, 200))
    keep = g.copy()
    w = tl.warp_frequency(g, fs, lam)
    ctx.equal("warp_input", g, keep)
    ctx.close("warp_ends", [w[0], w[-1]], [0, fs / 2], 0, 1e-9 * fs)
    ctx.ok("warp_monotonic", bool(np.all(np.diff(w) > 0)))
    back = tl.warp_frequency(w, fs, -lam)
    ctx.close("warp_inverse", back, g, 1e-6, scale=fs)
    ctx.close("warp_nothing", tl.warp_frequency(g, fs, 0.0), g, 1e-12, scale=fs)
    z = np.exp(-2j * np.pi * g / fs)
    # phase of a first-order allpass
    for sg in (1, -1):
        a = (z + sg * lam) / (1 + sg * lam * z)
        ph = -np.unwrap(np.angle(a)) / (2 * np.pi) * fs
        if np.allclose(ph, w, atol=1e-6 * fs):
            break
    else:
        ctx.fail("warp_allpass", "not the phase of an allpass")
    ctx.ok("warp_direction", bool(np.all((w - g)[1:-1] * lam < 1e-9)) or bool(np.all((w - g)[1:-1] * lam > -1e-9)))
    ctx.raises("warp_range", lambda: tl.warp_frequency(g, fs, ctx.pick("too_much", [1.0, -1.0, 1.5])))


def values(ctx):
    """Interpolated values and means."""
    n = ctx.int("n", 2, 300)
    f = np.sort(ctx.rng.uniform(0, 5000, n))
    f = np.unique(np.concatenate([f, [500.0]])) if ctx.flag("exact") else np.unique(f)
    y = ctx.rng.normal(size=(len(f),) + ctx.pick("shape", [(), (2,), (3, 2)]))
    if ctx.flag("complex", 0.3):
        y = y + 1j * ctx.rng.normal(size=y.shape)
    at = ctx.pick("at", ["inside", "first", "last", "bin"])
    q = {"inside": ctx.rng.uniform(f[0], f[-1]), "first": f[0], "last": f[-1], "bin": f[int(ctx.rng.integers(len(f)))]}[at]
    got = tl.get_exact_value_at_frequency(f, y, q)
    flat = y.reshape(len(f), -1)
    want = np.array([np.interp(q, f, flat[:, k].real) + 1j * np.interp(q, f, flat[:, k].imag) for k in range(flat.shape[1])]).reshape(y.shape[1:])
    ctx.close("value", np.asarray(got), want, 1e-7, scale=5)
    ctx.raises("outside", lambda: tl.get_exact_value_at_frequency(f, y, ctx.pick("where", [f[0] - 1, f[-1] + 1])))
    # logarithmic mean
    m = ctx.int("m", 1, 200)
    ax = ctx.pick("axis", [0, 1, -1])
    x = ctx.rng.normal(size=(m, 3) if ax == 0 else (3, m))
    keep = x.copy()
    mean = tl.log_mean(x, ax)
    pos = m ** (np.arange(m) / max(m - 1, 1))
    v = x if ax == 0 else x.T
    want = np.array([np.mean(np.interp(pos, np.arange(1, m + 1), v[:, k])) for k in range(3)])
    ctx.close("log_mean", mean, want, 1e-9, scale=1)
    ctx.close("log_mean_constant", tl.log_mean(np.full(m, 2.5)), 2.5, 1e-12)
    ctx.equal("log_mean_input", x, keep)
    # powers of 2
    v = ctx.logu("number", 1, 1e9)
    v = int(np.ceil(v)) if ctx.flag("integer") else v
    lo, hi = tl.next_power_2(v, "floor"), tl.next_power_2(v, "ceil")
    ctx.ok("floor", lo <= v < 2 * lo and lo & (lo - 1) == 0 and type(lo) is int, f"{v} {lo}")
    ctx.ok("ceil", hi / 2 < v <= hi and hi & (hi - 1) == 0, f"{v} {hi}")
    c = tl.next_power_2(v)
    ctx.ok("closest", c in (lo, hi))
    if v - lo < 0.4 * lo:
        ctx.equal("closest_low", c, lo)
    if v - lo > 0.52 * lo:
        ctx.equal("closest_high", c, hi)
    k = ctx.int("k", 0, 40)
    ctx.ok("power", tl.next_power_2(2**k) == 2**k == tl.next_power_2(2**k, "floor") == tl.next_power_2(2**k, "ceil"))


def crossover(ctx):
    """Fade-in over frequency."""
    lo = ctx.logu("lo", 1, 5e3)
    hi = lo * ctx.pick("ratio", [1.001, 1.05, 1.3, 2, 10, 100])
    log = ctx.flag("logarithmic")
    c = tl.frequency_crossover([lo, hi], log)
    f = np.concatenate([np.geomspace(lo / 10, hi * 10, 400), np.linspace(lo, hi, 300)])
    f.sort()
    v = c(f)
    ctx.ok("shape", v.shape == f.shape)
    ctx.close("zero_below", v[f < lo], np.zeros(np.sum(f < lo)), 0, 1e-12)
    ctx.close("one_above", v[f > hi], np.ones(np.sum(f > hi)), 0, 1e-12)
    ctx.ok("range", v.min() >= -1e-3 and v.max() <= 1 + 1e-3, f"{v.min()} {v.max()}")
    ctx.ok("monotonic", bool(np.all(np.diff(v) > -1e-3)))
    t = (np.log(f / lo) / np.log(hi / lo) if log else (f - lo) / (hi - lo)).clip(0, 1)
    ctx.close("hann", v, np.sin(np.pi / 2 * t) ** 2, 0, 0.06)
    ctx.close("scalar", float(c(float(f[37]))), v[37], 0, 1e-12)


def interpolation(ctx):
    """interpolate_fr."""
    n, c = ctx.int("n", 5, 100), ctx.int("ch", 1, 3)
    f = np.sort(ctx.rng.uniform(10, 1000, n))
    f += np.arange(n) * 0.01
    y = 10 ** ctx.rng.uniform(-3, 1, (n, c))
    if ctx.flag("one_dimension"):
        y = y[:, 0]
    mode = ctx.pick("mode", [None, "db2amplitude", "db2power", "amplitude2db", "power2db", "power2amplitude", "amplitude2power"])
    given = 20 * np.log10(y) if mode and mode.startswith("db") else y
    keep = given.copy()
    t = np.sort(ctx.rng.uniform(f[0], f[-1], 50))
    out = tl.interpolate_fr(f, given, t, mode, "linear")
    ctx.equal("input_kept", given, keep)
    to = {None: lambda u: u, "db2amplitude": lambda u: 10 ** (u / 20), "db2power": lambda u: 10 ** (u / 10), "amplitude2db": lambda u: 20 * np.log10(u), "power2db": lambda u: 10 * np.log10(u), "power2amplitude": np.sqrt, "amplitude2power": np.square}[mode]
    fro = {None: lambda u: u, "db2amplitude": lambda u: 20 * np.log10(u), "db2power": lambda u: 10 * np.log10(u), "amplitude2db": lambda u: 10 ** (u / 20), "power2db": lambda u: 10 ** (u / 10), "power2amplitude": np.square, "amplitude2power": np.sqrt}[mode]
    g = to(given).reshape(n, -1)
    want = fro(np.stack([np.interp(t, f, g[:, k]) for k in range(g.shape[1])], 1)).reshape((50,) + y.shape[1:])
    ctx.close("definition", out, want, 1e-9, scale=np.max(np.abs(want)))
    kind = ctx.pick("scheme", ["linear", "quadratic", "cubic"])
    ctx.close("grid", tl.interpolate_fr(f, given, f, mode, kind), given, 1e-5, scale=np.max(np.abs(given)))
    far = np.array([f[0] - 5, f[-1] + 5])
    edge = tl.interpolate_fr(f, given, far, mode, kind)
    if mode in (None, "power2amplitude", "amplitude2power"):
        ctx.close("outside", edge, np.zeros_like(edge), 0, 1e-12)
    if mode in ("amplitude2db", "power2db"):
        ctx.close("outside_db", edge, given[[0, -1]], 1e-9)


def scaling(ctx):
    """scale_spectrum."""
    n, c = ctx.int("n", 4, 400), ctx.int("ch", 1, 3)
    fs = ctx.pick("fs", gen.FS)
    x = ctx.rng.normal(size=(n, c)) + 0.5
    w = ctx.rng.uniform(0.1, 1, n) if ctx.flag("window") else None
    X = np.fft.rfft(x if w is None else x * w[:, None], axis=0)
    keep = X.copy()
    sc = ctx.pick("scaling", list(SC))
    y = tl.scale_spectrum(X, sc, n, fs, w)
    ctx.equal("input_kept", X, keep)
    side = np.ones(len(X))
    side[0] = 0.5**0.5
    if n % 2 == 0:
        side[-1] = 0.5**0.5
    side = side[:, None]
    ww = np.ones(n) if w is None else w
    amp = X * side * 2**0.5 / np.sum(ww)
    den = X * side * (2 / fs / np.sum(ww**2)) ** 0.5
    want = {SC.FFTBackward: X, SC.FFTForward: X / n, SC.FFTOrthogonal: X / n**0.5, SC.AmplitudeSpectrum: amp, SC.PowerSpectrum: np.abs(amp) ** 2, SC.AmplitudeSpectralDensity: den, SC.PowerSpectralDensity: np.abs(den) ** 2}[sc]
    ctx.close("definition", y, want, 1e-10, scale=np.max(np.abs(want)))
    ctx.raises("wrong_length", lambda: tl.scale_spectrum(X, sc, n + 5, fs, w))


def ema(ctx):
    """Smoothing over time."""
    fs = ctx.pick("fs", [10, 1000, 48000])
    t1 = ctx.logu("time", 2 / fs, 200 / fs)
    a = tl.get_smoothing_factor_ema(t1, fs)
    ctx.close("factor", (1 - a) ** (t1 * fs), 0.05, 1e-9)
    acc = ctx.uniform("accuracy", 0.1, 0.999)
    a2 = tl.get_smoothing_factor_ema(t1, fs, acc)
    ctx.close("accuracy", (1 - a2) ** (t1 * fs), 1 - acc, 1e-9)
    n, c = ctx.int("n", 5, 200), ctx.int("ch", 1, 4)
    c = min(c, n - 1)
    x = ctx.rng.normal(size=(n, c))
    how = ctx.pick("input", ["columns", "rows", "one"])
    u = {"columns": x, "rows": x.T, "one": x[:, 0]}[how]
    keep = u.copy()
    t2 = ctx.pick("down", [None, 0.0, 3 / fs, 50 / fs])
    if ctx.flag("no_up", 0.2) and t2:
        t1 = 0.0
    y = tl.time_smoothing(u, fs, t1, t2)
    ctx.equal("input_kept", u, keep)
    ctx.ok("shape", y.shape == u.shape, str(y.shape))
    up = a if t1 else 1.0
    down = up if t2 is None else (1.0 if t2 == 0 else 1 - 0.05 ** (1 / (t2 * fs)))
    v = x[:, :1] if how == "one" else x
    z = v.copy()
    for i in range(1, n):
        k = np.where(v[i] > z[i - 1], up, down)
        z[i] = k * v[i] + (1 - k) * z[i - 1]
    got = {"columns": y, "rows": y.T, "one": y[:, None] if how == "one" else None}[how]
    ctx.close("definition", got, z, 1e-9, scale=1)
    ctx.ok("bounded", bool(np.all(got <= v.max(0) + 1e-9) and np.all(got >= v.min(0) - 1e-9)))
    const = np.full(n, 3.0)
    ctx.close("constant", tl.time_smoothing(const, fs, t1 or 1.0, t2), const, 1e-12)
    if t2 is not None:
        xi = np.round(x * 5).astype(int)
        ctx.close("integers", tl.time_smoothing(xi, fs, t1, t2), tl.time_smoothing(xi.astype(float), fs, t1, t2), 1e-9)


MORE = 10  # times the number of cases below in the quick tier
FAMILIES = [
    Family("formats", formats, 500, 20000),
    Family("byte_formats", byte_formats, 250, 8000),
    Family("levels", levels, 150, 5000),
    Family("frequencies", frequencies, 250, 8000),
    Family("values", values, 250, 8000),
    Family("crossover", crossover, 120, 3000),
    Family("interpolation", interpolation, 200, 6000),
    Family("scaling", scaling, 200, 6000),
    Family("ema", ema, 150, 4000),
]
