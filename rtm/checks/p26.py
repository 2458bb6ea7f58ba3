"""P26: geometry of points, arrays and steering vectors; simulated sources."""

import warnings

import numpy as np
import dsptoolbox as dsp
from dsptoolbox import beamforming as bf
from rtm.core import Family
from rtm.snap import snap, diff

PROPERTY = "P26"
ST = bf.SteeringVectorType


def xyz(r):
    return dict(x=r[:, 0], y=r[:, 1], z=r[:, 2])


def cloud(ctx, nmin=1, nmax=40, spread=None):
    n = ctx.int("points", nmin, nmax)
    r = ctx.rng.normal(size=(n, 3)) * (spread or ctx.pick("spread", [0.05, 1.0, 20.0]))
    r += ctx.rng.normal(size=3) * ctx.pick("offset", [0.0, 1.0, 1000.0])
    kind = ctx.pick("kind", ["any", "any", "plane", "line", "ints", "coincident"])
    if kind == "plane":
        r[:, int(ctx.rng.integers(3))] = ctx.rng.normal()
    elif kind == "line":
        a = int(ctx.rng.integers(3))
        for k in range(3):
            if k != a:
                r[:, k] = ctx.rng.normal()
    elif kind == "ints":
        r = np.round(r)
    elif kind == "coincident" and n > 1:
        r[-1] = r[0]
    return r


def euclid(a, b):
    return np.sqrt(np.sum((a[:, None, :] - b[None, :, :]) ** 2, -1))


def points(ctx):
    r = cloud(ctx)
    cls = ctx.pick("cls", [bf.Grid, bf.MicArray])
    d = {k: list(v) for k, v in xyz(r).items()} if ctx.flag("lists") else xyz(r.copy())
    b = snap(d)
    g = cls(d)
    ctx.ok("positions_kept", diff(b, snap(d)) is None)
    ctx.equal("count", g.number_of_points, len(r))
    ctx.close("coordinates", g.coordinates, r, 0, atol=0)
    for i, k in enumerate("xyz"):
        ctx.close("extent", g.extent[k], [np.min(r[:, i]), np.max(r[:, i])], 0, atol=0)
    dims = [k for i, k in enumerate("xyz") if len(np.unique(r[:, i])) > 1]
    ctx.ok("dimensions", list(g.dim) == dims and g.ndim == len(dims), f"{g.dim} {dims}")
    # no way to change it through what was handed out or in
    g.coordinates[:] = 7
    if not isinstance(d["x"], list):
        d["x"][:] = 3
    ctx.close("isolated", g.coordinates, r, 0, atol=0)
    p = ctx.rng.normal(size=3) * 3 if ctx.flag("free") else r[int(ctx.rng.integers(len(r)))].copy()
    e = euclid(r, p[None])[:, 0]
    got = g.get_distances_to_point(list(p) if ctx.flag("plist") else p)
    ctx.close("distances", got, e, 1e-12, atol=1e-12)
    i, c = g.find_nearest_point(p)
    ctx.ok("nearest", e[i] <= np.min(e) + 1e-12 and np.array_equal(c, r[i]))
    q = cloud_like(ctx)
    many = g.get_distances_to_point(q)
    ctx.close("distance_matrix", many.reshape(len(r), len(q)), euclid(r, q), 1e-12, atol=1e-12)
    ctx.raises("missing_axis", lambda: cls({"x": [1, 2], "y": [1, 2]}))
    ctx.raises("uneven_axes", lambda: cls({"x": [1, 2, 4], "y": [1, 2], "z": [0, 0]}))
    ctx.event("points", len(r))


def cloud_like(ctx):
    return ctx.rng.normal(size=(ctx.int("q", 2, 9), 3)) * 5


def grids(ctx):
    kind = ctx.pick("grid", ["2d", "3d", "line"])
    if kind == "2d":
        l1, l2 = np.sort(ctx.rng.normal(size=ctx.int("n1", 2, 9))), np.sort(ctx.rng.normal(size=ctx.int("n2", 2, 9)))
        if ctx.flag("unsorted", 0.3):
            l1 = l1[::-1]
        dims = list(ctx.rng.permutation(["x", "y", "z"])[:2])
        v = float(ctx.rng.normal())
        given = [k.upper() if ctx.flag("upper" + k, 0.3) else k for k in dims]
        b = snap([l1, l2, given])
        g = bf.Regular2DGrid(l1, l2, given, v)
        ctx.ok("lines_kept", diff(b, snap([l1, l2, given])) is None)
        shape = (len(l1), len(l2))
        val = lambda i, j: {dims[0]: l1[i], dims[1]: l2[j]}
        rest = [k for k in "xyz" if k not in dims][0]
        index = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
        want = {ij: np.array([{**val(*ij), rest: v}[k] for k in "xyz"]) for ij in index}
    elif kind == "3d":
        ls = [np.sort(ctx.rng.normal(size=int(ctx.rng.integers(2, 6)))) for _ in range(3)]
        g = bf.Regular3DGrid(*ls)
        shape = tuple(len(l) for l in ls)
        index = list(np.ndindex(*shape))
        want = {i: np.array([ls[0][i[0]], ls[1][i[1]], ls[2][i[2]]]) for i in index}
    else:
        l = ctx.rng.normal(size=ctx.int("n", 1, 12))
        k = ctx.pick("dim", ["x", "y", "z", "X", "Z"])
        v2, v3 = ctx.rng.normal(size=2)
        g = bf.LineGrid(l, k, v2, v3)
        others = [a for a in "xyz" if a != k.lower()]
        c = g.coordinates
        ctx.close("line", c[:, "xyz".index(k.lower())], l, 0, atol=0)
        o = [c[:, "xyz".index(a)] for a in others]
        fixed = [np.unique(a) for a in o]
        ctx.ok("line_constant", all(len(a) == 1 for a in fixed) and {float(a[0]) for a in fixed} == {float(v2), float(v3)})
        m = ctx.rng.normal(size=len(l))
        ctx.close("line_map", g.reconstruct_map_shape(m), m, 0, atol=0)
        return
    pos = g.coordinates
    ctx.equal("grid_points", len(pos), int(np.prod(shape)))
    # each value of a map lands where its point is
    m = np.arange(len(pos)) + 0.5
    out = g.reconstruct_map_shape(m.copy())
    ctx.equal("map_shape", out.shape, shape)
    for ij in index:
        k = int(out[ij] - 0.5)
        ctx.close("map_point", pos[k], want[ij], 0, atol=0)
    ctx.raises("map_size", lambda: g.reconstruct_map_shape(np.ones(len(pos) + 1)))
    ctx.raises("map_dims", lambda: g.reconstruct_map_shape(np.ones((len(pos), 1))))
    ctx.event("grid_points", len(pos))


def arrays(ctx):
    r = cloud(ctx, 2, 30)
    m = bf.MicArray(xyz(r))

    def verify(r, key):
        e = euclid(r, r)
        off = e[~np.eye(len(r), dtype=bool)]
        ctx.close(key + "aperture", m.aperture, np.max(e), 1e-10, atol=1e-10)
        ctx.close(key + "min_distance", m.min_distance, np.min(off), 1e-9, atol=1e-10)
        c = euclid(r, np.mean(r, 0)[None])[:, 0]
        i = m.array_center_channel_number
        ctx.ok(key + "center", c[i] <= np.min(c) + 1e-9 and np.array_equal(m.array_center_coordinates, r[i]))
        c0 = ctx.pick("c", [343.0, 340.0, 331.0])
        f = ctx.logu("f", 20, 20000)
        ctx.close(key + "he", m.hz_to_he(f, c0), f * np.max(e) / c0, 1e-9)
        ctx.close(key + "hz", m.he_to_hz(m.hz_to_he(f, c0), c0), f, 1e-12)
        if np.min(off) > 1e-6:
            fr = m.get_maximum_frequency_range(4, c0)
            ctx.close(key + "range", fr, [4 * c0 / np.max(e), c0 / 2 / np.min(off)], 1e-8)

    if np.max(euclid(r, r)) > 0:
        verify(r, "")
    n = r[ctx.rng.permutation(len(r))] * 2 + 1
    if ctx.flag("move") and np.max(euclid(n, n)) > 0:
        m.coordinates = n
        verify(n, "moved_")
    ctx.event("arrays", 1)


def definition(kind, k, g, r, r0):
    """Sarradj (2012), h with shape (k, mic, grid)."""
    rt0 = euclid(g, r0[None])[:, 0]
    rti = euclid(r, g)
    N = len(r)
    ph = np.exp(-1j * k[:, None, None] * (rti - rt0)[None])
    s = np.sum(1 / rti**2, 0)
    a = {
        ST.Classic: np.full(rti.shape, 1 / N),
        ST.Inverse: rti / rt0 / N,
        ST.TruePower: 1 / (rt0 * rti * s),
        ST.TrueLocation: 1 / (rti * np.sqrt(N * s)),
    }[kind]
    return a[None] * ph


def steering(ctx):
    r = ctx.rng.normal(size=(ctx.int("mics", 3, 20), 3)) * ctx.pick("size", [0.1, 0.5, 3])
    g = ctx.rng.normal(size=(ctx.int("grid", 1, 25), 3)) + np.array([0, 0, ctx.pick("away", [2.0, 8.0])])
    mics, grid = bf.MicArray(xyz(r)), bf.Grid(xyz(g))
    k = 2 * np.pi * np.exp(ctx.rng.uniform(np.log(30), np.log(10000), ctx.int("freqs", 1, 6))) / 343
    kind = ctx.pick("kind", list(ST))
    bm, bg = snap(mics.coordinates), snap(grid.coordinates)
    arg = float(k[0]) if len(k) == 1 and ctx.flag("scalar") else k
    h = bf.SteeringVector(kind).get_vector(arg, grid=grid, mic=mics)
    r0 = mics.array_center_coordinates
    ref = definition(kind, k, g, r, r0)
    ctx.equal("h_shape", h.shape, ref.shape)
    ctx.close("h", h, ref, 1e-9, scale=np.max(np.abs(ref)))
    ctx.ok("geometry_kept", diff(bm, snap(mics.coordinates)) is None and diff(bg, snap(grid.coordinates)) is None)
    # what the formulations promise for a source on the grid
    rt0, rti = euclid(g, r0[None])[:, 0], euclid(r, g)
    a = rt0 / rti * np.exp(-1j * k[:, None, None] * (rti - rt0)[None])
    gain = np.sum(h.conj() * a, 1)
    if kind in (ST.Inverse, ST.TruePower):
        ctx.close("unit_gain", gain, np.ones(gain.shape), 1e-9)
    if kind == ST.TrueLocation:
        ctx.close("unit_norm", np.sum(np.abs(h) ** 2, 1), np.full(gain.shape, 1 / len(r)), 1e-9)
    p = ctx.rng.permutation(len(g))
    h2 = bf.SteeringVector(kind).get_vector(k, grid=bf.Grid(xyz(g[p])), mic=mics)
    ctx.close("grid_order", h2, h[:, :, p], 1e-12)
    q = ctx.rng.permutation(len(r))
    h3 = bf.SteeringVector(kind).get_vector(k, grid=grid, mic=bf.MicArray(xyz(r[q])))
    ctx.close("mic_order", h3, h[:, q, :], 1e-9, scale=np.max(np.abs(ref)))
    t = ctx.rng.normal(size=3) * 10
    h4 = bf.SteeringVector(kind).get_vector(k, grid=bf.Grid(xyz(g + t)), mic=bf.MicArray(xyz(r + t)))
    ctx.close("translation", h4, h, 1e-7, scale=np.max(np.abs(ref)))
    ctx.event("steering", h.size)


def pulse(t, t0, f, width):
    return np.exp(-0.5 * ((t - t0) / width) ** 2) * np.cos(2 * np.pi * f * (t - t0))


def source(ctx, fs, n, mics, tag):
    p = mics.coordinates.mean(0) + ctx.rng.normal(size=3) * np.array([1, 1, 0.5]) + [0, 0, 2]
    f = ctx.rng.uniform(0.02, 0.12) * fs
    width = min(3 / f, 0.05 * n / fs)
    t0 = ctx.rng.uniform(0.3, 0.5) * n / fs
    level = float(np.exp(ctx.rng.uniform(np.log(0.1), np.log(3))))
    x = level * pulse(np.arange(n) / fs, t0, f, width)
    s = bf.MonopoleSource(dsp.Signal(None, x, fs, constrain_amplitude=False), p if ctx.flag("parr" + tag) else list(p))
    return s, lambda t, d: level * pulse(t - d, t0, f, width)


def sources(ctx):
    fs = ctx.pick("fs", [8000, 16000, 44100, 48000])
    n = ctx.int("n", int(0.04 * fs), int(0.08 * fs))
    r = ctx.rng.normal(size=(ctx.int("mics", 2, 6), 3)) * 0.3
    mics = bf.MicArray(xyz(r))
    c = ctx.pick("c", [343.0, 330.0])
    ns = ctx.int("sources", 1, 3)
    made = [source(ctx, fs, n, mics, str(i)) for i in range(ns)]
    t = np.arange(n) / fs
    single = []
    for s, law in made:
        b = snap(s.emitted_signal)
        m = s.get_signals_on_array(mics, c)
        ctx.ok("emitted_kept", diff(b, snap(s.emitted_signal)) is None)
        ctx.equal("mic_signals", (m.number_of_channels, m.length_samples, m.sampling_rate_hz), (len(r), n, fs))
        d = euclid(r, np.asarray(s.coordinates)[None])[:, 0]
        ref = np.stack([law(t, k / c) / (1 + k) for k in d], 1)
        ctx.close("travel", m.time_data, ref, 5e-3, scale=np.max(np.abs(ref)))
        single.append(m.time_data)
        ctx.event("mic_signals", len(r))
    lst = [s for s, _ in made]
    keep = list(lst)
    b = [snap(s.emitted_signal) for s in keep]
    mix = bf.mix_sources_on_array(lst, mics, c)
    ctx.ok("list_kept", len(lst) == len(keep) and all(x is y for x, y in zip(lst, keep)), f"{len(lst)} of {len(keep)}")
    ctx.ok("sources_kept", all(diff(x, snap(s.emitted_signal)) is None for x, s in zip(b, keep)))
    ctx.close("superposition", mix.time_data, np.sum(single, 0), 1e-9, scale=np.max(np.abs(single)))
    other = bf.mix_sources_on_array([keep[i] for i in ctx.rng.permutation(ns)], mics, c)
    ctx.close("source_order", other.time_data, mix.time_data, 1e-9, scale=np.max(np.abs(single)))
    one = bf.mix_sources_on_array(keep[0], mics, c)
    ctx.close("single_source", one.time_data, single[0], 1e-12)


def lengths(ctx):
    """Signals of unequal length: the shortest counts, in any order."""
    fs = 8000
    r = ctx.rng.normal(size=(3, 3)) * 0.3
    mics = bf.MicArray(xyz(r))
    ns = [int(k) for k in ctx.rng.integers(300, 700, ctx.int("sources", 2, 4))]
    srcs = []
    for n in ns:
        x = np.zeros(n)
        x[: min(ns) - 100] = ctx.normal(min(ns) - 100)
        srcs.append(bf.MonopoleSource(dsp.Signal(None, x, fs, constrain_amplitude=False), ctx.rng.normal(size=3) + [0, 0, 2]))
    b = [snap(s.emitted_signal) for s in srcs]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = bf.mix_sources_on_array(list(srcs), mics)
        p = bf.mix_sources_on_array([srcs[i] for i in ctx.rng.permutation(len(ns))], mics)
    ctx.equal("shortest", m.length_samples, min(ns))
    ctx.close("unequal_order", p.time_data, m.time_data, 1e-3, scale=np.max(np.abs(m.time_data)))
    ctx.ok("unequal_kept", all(diff(x, snap(s.emitted_signal)) is None for x, s in zip(b, srcs)))
    two = dsp.Signal(None, np.ones((10, 2)), fs)
    ctx.raises("two_channels", lambda: bf.MonopoleSource(two, [0, 0, 1]))
    ctx.raises("no_sources", lambda: bf.mix_sources_on_array([], mics))
    ctx.event("mixed", len(ns))


MORE = 7  # times the number of cases below in the quick tier
FAMILIES = [
    Family("points", points, 600, 6000),
    Family("grids", grids, 400, 4000),
    Family("arrays", arrays, 400, 4000),
    Family("steering", steering, 400, 4000),
    Family("sources", sources, 150, 3000),
    Family("lengths", lengths, 80, 1500),
]
