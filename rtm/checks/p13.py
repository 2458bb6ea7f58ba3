"""P13: real-time filter structures against the systems they represent."""

import numpy as np
import scipy.signal as sg
import dsptoolbox as dsp
from dsptoolbox.filterbanks import (
    LatticeLadderFilter, WarpedFIR, WarpedIIR, StateSpaceFilter, IIRFilter, FIRFilter, KautzFilter,
    ExponentialAverageFilter, ParallelFilter, StateVariableFilter, FilterChain, FIRFilterOverlapSave,
    FIRUniformPartitioned,
)
from dsptoolbox.classes.fir_filter_realtime import FIRUniformPartitionedMultichannel
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff
from rtm.checks.p18 import settings

PROPERTY = "P13"


def poles(ctx, n, rmax=0.93, rmin=0.05):
    k = n // 2
    r = ctx.rng.uniform(rmin, rmax, k) * np.exp(1j * ctx.rng.uniform(0.1, 3.0, k))
    return np.concatenate([r, r.conj(), ctx.rng.uniform(-rmax, rmax, n % 2)])


def iir(ctx, na=None, nb=None, a0=True):
    a = np.real(np.poly(poles(ctx, na or ctx.int("na", 1, 8))))
    b = ctx.normal(nb or ctx.int("nb", 1, 9))
    if a0 and ctx.flag("scaled_a", 0.3):
        a = a * ctx.pick("a0", [2.0, -0.4, 13.0])
    return b, a


def sections(ctx, first_order=True, scaled=True):
    s = []
    for _ in range(ctx.int("sections", 1, 4)):
        if first_order and ctx.flag("first_order", 0.2):
            s.append([*ctx.normal(2), 0, 1, ctx.rng.uniform(-0.9, 0.9), 0])
        elif ctx.flag("delayed", 0.15):
            s.append([0, *ctx.normal(2), *np.real(np.poly(poles(ctx, 2)))])
        else:
            s.append([*ctx.normal(3), *np.real(np.poly(poles(ctx, 2)))])
    s = np.array(s)
    if scaled and ctx.flag("scaled_a", 0.3):
        s *= ctx.rng.uniform(0.5, 3, (len(s), 1))
    return s


def run(ctx, f, x, order=None):
    """Sample by sample, the channels interleaved at random."""
    n, c = x.shape
    idx = np.repeat(np.arange(c), n)
    how = ctx.pick("interleave", ["random", "round", "channel"]) if order is None else order
    if how == "random":
        idx = ctx.rng.permutation(idx)
    elif how == "round":
        idx = np.tile(np.arange(c), n)
    pos = np.zeros(c, int)
    out = [[] for _ in range(c)]
    as_float = ctx.flag("python_floats", 0.5)
    for ch in idx:
        v = x[pos[ch], ch]
        out[ch].append(f.process_sample(float(v) if as_float else v, int(ch)))
        pos[ch] += 1
    return np.stack([np.array(o) for o in out], axis=1)


def protocol(ctx, f, ref, tol=1e-9, nmax=60, cmax=4):
    """Outputs, resets and changes of the number of channels."""
    first = True
    for _ in range(ctx.int("rounds", 1, 3)):
        c = ctx.int("channels", 1, cmax)
        n = ctx.int("n", 2, nmax)
        x = ctx.normal(n, c) * ctx.pick("level", [0.1, 1.0, 50.0])
        if first and c == 1 and ctx.flag("default_channels", 0.5):
            pass  # one channel by default
        else:
            f.set_n_channels(c)
        first = False
        e = ref(x)
        s = np.abs(e).max() + np.abs(x).max() * 1e-3
        y = run(ctx, f, x)
        ctx.close("samples", y, e, tol, 1e-12, scale=s)
        f.reset_state()
        k = ctx.int("cut", 1, n)
        y = run(ctx, f, x[:k])
        ctx.close("after_reset", y, e[:k], tol, 1e-12, scale=s)
        if k < n:
            y = run(ctx, f, x[k:])
            ctx.close("continued", y, e[k:], tol, 1e-12, scale=s)


def make_filter(ctx, b, a, fs):
    return dsp.Filter.from_ba(b.copy(), a.copy(), fs)


def fir_samples(ctx):
    b = ctx.normal(ctx.int("taps", 1, 40))
    keep = b.copy()
    if ctx.flag("from_filter"):
        flt = make_filter(ctx, b, np.array([ctx.pick("a0", [1.0, 2.0])]), 48000)
        b = flt.ba[0].copy()
        before = snap(flt)
        f = FIRFilter.from_filter(flt)
        protocol(ctx, f, lambda x: sg.lfilter(b, [1], x, axis=0))
        ctx.ok("filter_unchanged", not diff(before, snap(flt)))
        ctx.raises("iir_refused", lambda: FIRFilter.from_filter(dsp.Filter.from_ba([1.0, 0.2], [1.0, 0.5], 48000)))
    else:
        protocol(ctx, FIRFilter(b), lambda x: sg.lfilter(keep, [1], x, axis=0))
        ctx.equal("coefficients", b, keep)


def iir_samples(ctx):
    b, a = iir(ctx)
    kb, ka = b.copy(), a.copy()
    ref = lambda x: sg.lfilter(kb, ka, x, axis=0)
    if ctx.flag("from_filter"):
        flt = make_filter(ctx, b, a, 48000)
        before = snap(flt)
        f = IIRFilter.from_filter(flt)
        protocol(ctx, f, ref, 1e-7)
        ctx.ok("filter_unchanged", not diff(before, snap(flt)))
        ctx.raises("fir_refused", lambda: IIRFilter.from_filter(dsp.Filter.from_ba([1.0, 0.2], [1.0], 48000)))
    else:
        if ctx.flag("no_poles", 0.1):
            ka = ka[:1]
            a = ka.copy()
        if ctx.flag("gain", 0.1):
            kb = kb[:1]
            b = kb.copy()
        protocol(ctx, IIRFilter(b, a), ref, 1e-7)
        ctx.ok("coefficients", np.array_equal(b, kb) and np.array_equal(a, ka))


def blocks(ctx):
    """Block convolution, channels interleaved block by block."""
    b = ctx.normal(ctx.int("taps", 1, 150)) * ctx.pick("gain", [0.1, 1.0, 30.0])
    kind = ctx.pick("kind", [FIRFilterOverlapSave, FIRUniformPartitioned])
    if ctx.flag("from_filter"):
        f = kind.from_filter(dsp.Filter.from_ba(b.copy(), [1.0], 48000))
        ctx.ok("class", type(f) is kind)
        ctx.raises("iir_refused", lambda: kind.from_filter(dsp.Filter.from_ba([1.0, 0.2], [1.0, 0.5], 48000)))
    else:
        f = kind(b)
    kb = b.copy()
    for _ in range(ctx.int("rounds", 1, 2)):
        B, c, k = ctx.int("block", 1, 64), ctx.int("channels", 1, 4), ctx.int("blocks", 2, 12)
        f.prepare(B, c)
        x = ctx.normal(B * k, c)
        e = sg.lfilter(kb, [1.0], x, axis=0)
        for attempt in range(2):
            m = k if attempt == 0 else ctx.int("part", 1, k)
            y = np.zeros((m * B, c))
            idx = ctx.rng.permutation(np.repeat(np.arange(c), m)) if ctx.flag("random_order") else np.tile(np.arange(c), m)
            pos = np.zeros(c, int)
            for ch in idx:
                i = pos[ch] * B
                blk = x[i:i + B, ch].copy()
                keep = blk.copy()
                y[i:i + B, ch] = f.process_block(blk, int(ch))
                ctx.ok("block_unchanged", np.array_equal(blk, keep))
                pos[ch] += 1
            ctx.close("blocks", y, e[: m * B], 1e-9, 1e-12, scale=np.abs(e).max())
            f.reset_state()
    ctx.equal("taps_unchanged", b, kb)
    ctx.raises("no_sample_processing", lambda: f.process_sample(0.1, 0), (NotImplementedError, AttributeError))


def multichannel_blocks(ctx):
    c = ctx.int("channels", 1, 4)
    b = ctx.normal(ctx.int("taps", 5, 150), c) * ctx.pick("gain", [0.1, 1.0, 30.0])
    f = FIRUniformPartitionedMultichannel(b)
    kb = b.copy()
    for _ in range(ctx.int("rounds", 1, 2)):
        B, k = ctx.int("block", 1, 64), ctx.int("blocks", 2, 12)
        f.prepare(B)
        x = ctx.normal(B * k, c)
        e = np.stack([sg.lfilter(kb[:, i], [1.0], x[:, i]) for i in range(c)], axis=1)
        for attempt in range(2):
            m = k if attempt == 0 else ctx.int("part", 1, k)
            y = np.concatenate([f.process_block(x[i * B:(i + 1) * B].copy()) for i in range(m)])
            ctx.close("blocks", y, e[: m * B], 1e-9, 1e-12, scale=np.abs(e).max())
            f.reset_state()
    ctx.equal("taps_unchanged", b, kb)


def state_variable(ctx):
    fs = ctx.pick("fs", gen.FS)
    f0 = ctx.uniform("f0", 0.002 * fs, 0.45 * fs)
    R = ctx.uniform("resonance", 0.1, 3)
    f = StateVariableFilter(f0, R, fs)
    if ctx.flag("set", 0.3):
        f0, R = ctx.uniform("f0", 0.002 * fs, 0.45 * fs), ctx.uniform("resonance", 0.1, 3)
        f.set_parameters(f0, R, 1)
    g = np.tan(np.pi * f0 / fs)
    num = [[1], [1, 0, 0], [1, 0], [1, -R, 1]]
    ba = [sg.bilinear(q, [1, R, 1], 0.5 / g) for q in num]
    ref = lambda x: np.stack([sg.lfilter(*q, x, axis=0) for q in ba], axis=-1)

    class One:
        set_n_channels = staticmethod(f.set_n_channels)
        reset_state = staticmethod(f.reset_state)
        process_sample = staticmethod(lambda x, ch: np.array(f.process_sample(x, ch)))

    protocol(ctx, One, ref, 1e-6)
    f.reset_state()
    c, n = ctx.int("ch", 1, 4), ctx.int("len", 9, 120)
    s = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])(None, ctx.normal(n, c) * 0.1, fs, constrain_amplitude=False)
    f.set_n_channels(c)
    e = ref(s.time_data)
    before = snap(s)
    o = f.filter_signal(s)
    ctx.ok("input", not diff(before, snap(s)))
    ctx.equal("bands", o.number_of_bands, 4)
    for i, b in enumerate(o.bands):
        ctx.close("band", gen.full(b), e[..., i], 1e-6, 1e-12, scale=np.abs(e).max())
        ctx.ok("band_settings", settings(b) == settings(s) and b.constrain_amplitude is False)
    # In blocks: the state goes on
    f.reset_state()
    k = ctx.int("k", c, n - c)
    parts = [f.filter_signal(s.copy_with_new_time_data(q.copy())) for q in (s.time_data[:k], s.time_data[k:])]
    for i in range(4):
        ctx.close("signal_blocks", np.concatenate([p.bands[i].time_data for p in parts]), e[..., i], 1e-6, 1e-12, scale=np.abs(e).max())
    d = np.zeros((n, 1))
    d[0] = 1
    e = ref(d)
    ir = f.get_ir(n)
    for i, b in enumerate(ir.bands):
        ctx.close("ir", gen.full(b), e[..., i], 1e-6, 1e-12, scale=np.abs(e).max())
    ctx.raises("rate_refused", lambda: f.filter_signal(dsp.Signal(None, ctx.normal(50, 1), fs + 1)))
    ctx.raises("frequency_refused", lambda: StateVariableFilter(ctx.pick("bad", [0.0, -5.0, fs / 2.0, fs * 1.0]), 1.0, fs))


def state_space(ctx):
    fs = 48000
    how = ctx.pick("how", ["ba", "sos", "matrices", "fir"])
    if how == "sos":
        sos = sections(ctx)
        flt = dsp.Filter.from_sos(sos.copy(), fs)
        before = snap(flt)
        f = FilterChain(StateSpaceFilter.from_filter_as_sos_list(flt))
        ctx.equal("sections", f.n_filters, len(sos))
        protocol(ctx, f, lambda x: sg.sosfilt(flt.sos / flt.sos[:, 3:4], x, axis=0), 1e-7)
        ctx.ok("filter_unchanged", not diff(before, snap(flt)))
        return
    if how == "fir":
        b, a = ctx.normal(ctx.int("taps", 1, 12)), np.array([1.0])
    else:
        b, a = iir(ctx, na=ctx.int("na", 1, 6))
    if how == "matrices":
        n = max(len(a), len(b))
        m = sg.tf2ss(np.pad(b, (0, n - len(b))), np.pad(a, (0, n - len(a))))
        if ctx.flag("other_coordinates") and n > 1:
            T = ctx.normal(n - 1, n - 1) + 3 * np.eye(n - 1)
            i = np.linalg.inv(T)
            m = (i @ m[0] @ T, i @ m[1], m[2] @ T, m[3])
        f = StateSpaceFilter(*[q.copy() for q in m])
    else:
        flt = make_filter(ctx, b, a, fs)
        before = snap(flt)
        f = StateSpaceFilter.from_filter(flt)
        ctx.ok("filter_unchanged", not diff(before, snap(flt)))
    protocol(ctx, f, lambda x: sg.lfilter(b, a, x, axis=0), 1e-6)


def lattice(ctx):
    fs = 48000
    how = ctx.pick("how", ["ba", "sos", "fir"])
    if how == "sos":
        flt = dsp.Filter.from_sos(sections(ctx), fs)
        ref = lambda x: sg.sosfilt(flt.sos / flt.sos[:, 3:4], x, axis=0)
    elif how == "ba":
        b, a = iir(ctx)
        flt = make_filter(ctx, b, a, fs)
        ref = lambda x: sg.lfilter(b, a, x, axis=0)
    else:
        z = poles(ctx, ctx.int("taps", 1, 12), 0.9)
        b = np.real(np.poly(z)) * ctx.pick("gain", [1.0, 0.3, -2.0])
        a = np.array([ctx.pick("a0", [1.0, 2.0])])
        flt = make_filter(ctx, b, a, fs)
        ref = lambda x: sg.lfilter(b, a, x, axis=0)
    before = snap(flt)
    f = LatticeLadderFilter.from_filter(flt)
    ctx.ok("filter_unchanged", not diff(before, snap(flt)))
    protocol(ctx, f, ref, 1e-5)
    n, c = ctx.int("n", 8, 80), ctx.int("ch", 1, 3)
    s = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])(None, ctx.normal(n, c) * 0.01, fs, constrain_amplitude=False)
    f.set_n_channels(c)
    before = snap(s)
    e = ref(s.time_data)
    o = f.filter_signal(s)
    ctx.ok("input", not diff(before, snap(s)))
    ctx.close("filter_signal", gen.full(o), e, 1e-5, 1e-12)
    ctx.ok("settings", type(o) is type(s) and settings(o) == settings(s))
    f.reset_state()
    k = ctx.int("k", c, n - c)
    p = [f.filter_signal(s.copy_with_new_time_data(q.copy())).time_data for q in (s.time_data[:k], s.time_data[k:])]
    ctx.close("signal_blocks", np.concatenate(p), e, 1e-5, 1e-12)
    # Another number of channels restarts
    x = ctx.normal(n, c + 1) * 0.01
    ctx.close("other_channels", f.filter_signal(dsp.Signal(None, x, fs)).time_data, ref(x), 1e-5, 1e-12)
    ctx.raises("rate_refused", lambda: f.filter_signal(dsp.Signal(None, x, fs + 1)))


def kautz(ctx):
    fs = 48000
    nr, nc = ctx.int("real", 0, 3), ctx.int("complex", 0, 3)
    if nr + nc == 0:
        nr = 1
    pr = ctx.rng.uniform(-0.9, 0.9, nr)
    pc = ctx.rng.uniform(0.2, 0.92, nc) * np.exp(1j * ctx.rng.uniform(0.1, 3.0, nc))
    p = ctx.rng.permutation(np.concatenate([pr + 0j, pc]))
    f = KautzFilter(p.copy(), fs)
    # the filter orders the poles: real first
    pr, pc = p.real[p.imag == 0], p[p.imag != 0]
    basis = []
    ap = lambda x: x

    def chain(k_real, k_complex):
        def g(x):
            for q in pr[:k_real]:
                x = sg.lfilter([-q, 1], [1, -q], x, axis=0)
            for q in pc[:k_complex]:
                a = np.real(np.poly([q, q.conj()]))
                x = sg.lfilter(a[::-1], a, x, axis=0)
            return x
        return g

    for i, q in enumerate(pr):
        basis.append(lambda x, i=i, q=q: sg.lfilter([np.sqrt(1 - q * q)], [1, -q], chain(i, 0)(x), axis=0))
    for i, q in enumerate(pc):
        a = np.real(np.poly([q, q.conj()]))
        r = abs(q) ** 2
        for sgn in (-1, 1):
            k = np.sqrt((1 - r) * (1 + r + sgn * a[1]) / 2)
            basis.append(lambda x, i=i, a=a, k=k, sgn=sgn: sg.lfilter([k, sgn * k], a, chain(len(pr), i)(x), axis=0))
    N = 1500
    d = np.zeros((N, 1))
    d[0] = 1
    G = np.hstack([g(d) for g in basis])
    ctx.close("reference_orthonormal", G.T @ G, np.eye(G.shape[1]), 0, 1e-6)
    co = ctx.normal(G.shape[1]) * ctx.pick("gain", [0.1, 1.0, 5.0])
    out = f.set_filter_coefficients(co[: len(pr)], co[len(pr):])
    ctx.ok("returns_self", out is f)
    ref = lambda x: sum(c * g(x) for c, g in zip(co, basis))
    protocol(ctx, f, ref, 1e-7)
    n, c = ctx.int("n", 3, 200), ctx.int("ch", 1, 3)
    s = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])(None, ctx.normal(n, c) * 0.01, fs, constrain_amplitude=False)
    before = snap(s)
    o = f.filter_signal(s)
    ctx.ok("input", not diff(before, snap(s)))
    ctx.close("filter_signal", gen.full(o), ref(s.time_data), 1e-7, 1e-12)
    ctx.ok("settings", type(o) is type(s) and settings(o) == settings(s))
    h = G @ co
    ir = f.get_ir(N)
    ctx.close("ir", gen.full(ir)[:, 0], h, 1e-7, 1e-12)
    ctx.ok("ir_type", type(ir) is dsp.ImpulseResponse and len(ir) == N and ir.sampling_rate_hz == fs)
    # Fitting finds the coefficients back, for any response in the span
    target = dsp.ImpulseResponse(None, h[:, None].copy(), fs, constrain_amplitude=False)
    f2 = KautzFilter(p.copy(), fs)
    before = snap(target)
    f2.fit_coefficients_to_ir(target)
    got = np.concatenate([f2.coefficients_real_poles, f2.coefficients_complex_poles])
    ctx.close("fitted_coefficients", got, co, 1e-5, 1e-9)
    ctx.ok("fit_input", not diff(before, snap(target)))
    # least squares: the residual is orthogonal to the basis
    x = ctx.normal(N) * np.exp(-np.arange(N) / 60)
    f2.fit_coefficients_to_ir(dsp.ImpulseResponse(None, x[:, None], fs, constrain_amplitude=False))
    res = x - gen.full(f2.get_ir(N))[:, 0]
    ctx.close("least_squares", G.T @ res, np.zeros(len(co)), 0, 1e-5)
    ctx.raises("rate_refused", lambda: f.filter_signal(dsp.Signal(None, ctx.normal(20, 1), fs + 1)))
    ctx.raises("poles_refused", lambda: KautzFilter(ctx.pick("bad", [np.array([1.0 + 0j]), np.array([0.5 - 0.1j]), np.array([0.9 + 0.9j])]), fs))
    ctx.raises("coefficients_refused", lambda: f.set_filter_coefficients(np.ones(len(pr) + 1), np.ones(2 * len(pc))))
    ctx.raises("channels_refused", lambda: f.fit_coefficients_to_ir(dsp.ImpulseResponse(None, ctx.normal(60, 2), fs)))


def kautz_poles(ctx):
    """Poles and coefficients fitted to responses of low order."""
    fs = 48000
    pc = ctx.rng.uniform(0.5, 0.9, 2) * np.exp(1j * np.array([ctx.rng.uniform(0.3, 1.3), ctx.rng.uniform(1.7, 2.8)]))
    a = np.real(np.poly(np.concatenate([pc, pc.conj()])))
    b = ctx.normal(4)
    n = 600
    d = np.zeros(n)
    d[0] = 1
    h = sg.lfilter(b, a, d)
    ir = dsp.ImpulseResponse(None, h[:, None].copy(), fs, constrain_amplitude=False)
    before = snap(ir)
    f = KautzFilter.from_ir(ir, ctx.pick("order", [4, 6]), 20)
    ctx.ok("input", not diff(before, snap(ir)))
    y = gen.full(f.get_ir(n))[:, 0]
    ctx.ok("approximation", np.sum((y - h) ** 2) < 1e-3 * np.sum(h**2), f"{np.sum((y - h) ** 2) / np.sum(h**2)}")
    f.set_n_channels(2)
    ctx.close("samples", run(ctx, f, np.stack([d, 0 * d], 1)[:60]), np.stack([y, 0 * y], 1)[:60], 1e-6, 1e-9)


def warped(ctx):
    fs = 48000
    lam = ctx.uniform("warp", -0.85, 0.85)
    kind = ctx.pick("kind", ["fir", "iir"])
    D = lambda x: sg.lfilter([-lam, 1], [1, -lam], x, axis=0)
    if kind == "fir":
        b = ctx.normal(ctx.int("taps", 1, 25))
        if ctx.flag("from_filter"):
            flt = make_filter(ctx, b, np.array([1.0]), fs)
            f = WarpedFIR.from_filter(flt, lam)
            ctx.raises("iir_refused", lambda: WarpedFIR.from_filter(dsp.Filter.from_ba([1.0, 0.2], [1.0, 0.5], fs), lam))
        else:
            f = WarpedFIR(b.copy(), lam, fs)

        def ref(x):
            y = 0
            for k in b:
                y = y + k * x
                x = D(x)
            return y
    else:
        b, a = iir(ctx, na=ctx.int("na", 1, 5), nb=ctx.int("nb", 1, 7))
        N = max(len(a), len(b)) - 1
        P = lambda q: sum(c * np.polynomial.polynomial.polymul(np.polynomial.polynomial.polypow([-lam, 1], k), np.polynomial.polynomial.polypow([1, -lam], N - k)) for k, c in enumerate(q))
        nb_, na_ = P(b), P(a)
        if ctx.flag("from_filter"):
            flt = make_filter(ctx, b, a, fs)
            before = snap(flt)
            f = WarpedIIR.from_filter(flt, lam)
            ctx.ok("filter_unchanged", not diff(before, snap(flt)))
            ctx.raises("fir_refused", lambda: WarpedIIR.from_filter(dsp.Filter.from_ba([1.0, 0.2], [1.0], fs), lam))
        else:
            f = WarpedIIR(b.copy(), a.copy(), lam, fs)
        ref = lambda x: sg.lfilter(nb_, na_, x, axis=0)
    protocol(ctx, f, ref, 1e-5)
    n, c = ctx.int("n", 3, 80), ctx.int("ch", 1, 3)
    s = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])(None, ctx.normal(n, c) * 0.01, fs, constrain_amplitude=False)
    before = snap(s)
    # A stream on other channels is not disturbed
    f.set_n_channels(2)
    f.reset_state()
    x = ctx.normal(30, 2)
    e = ref(x)
    y1 = run(ctx, f, x[:11])
    o = f.filter_signal(s)
    y2 = run(ctx, f, x[11:])
    ctx.close("stream_not_disturbed", np.concatenate([y1, y2]), e, 1e-5, 1e-10)
    ctx.ok("input", not diff(before, snap(s)))
    ctx.close("filter_signal", gen.full(o), ref(s.time_data), 1e-5, 1e-11)
    ctx.ok("settings", type(o) is type(s) and settings(o) == settings(s))
    ctx.raises("rate_refused", lambda: f.filter_signal(dsp.Signal(None, x, fs + 1)))
    ctx.raises("warping_refused", lambda: WarpedFIR(np.ones(3), ctx.pick("bad", [1.0, -1.0, 1.5]), fs))


def parallel(ctx):
    fs = 48000
    nc, nr = ctx.int("complex", 1, 3), ctx.int("real", 0, 2)
    r = ctx.rng.uniform(0.3, 0.9, nc) * np.exp(1j * (np.arange(nc) + ctx.rng.uniform(0.2, 0.8, nc)) * 3 / nc)
    pr = np.array([0.7, -0.5])[:nr] * ctx.rng.uniform(0.7, 1.1, nr)
    p = np.concatenate([r, pr + 0j])
    nf = ctx.int("n_fir", 0, 6)
    f = ParallelFilter(p.copy(), nf, fs)
    delay = ctx.pick("delay", [0, 0, 1, 5])
    off = ctx.pick("offset", [0, 0, 1, 2, 3])
    if delay or off:
        f.set_parameters(delay, off / fs * 1e3)
    off = max(off, 1)
    full = np.concatenate([p, r.conj()])
    ns = len(sg.zpk2sos([], full, 1.0))
    sos = sg.zpk2sos([], full, 1.0)
    N = 1024

    def system(co, fir, off):
        taps = np.zeros(max((len(fir) - 1) * off + 1, 1))
        taps[: len(fir) * off: off] = fir

        def ref(x):
            xd = np.concatenate([np.zeros((delay,) + x.shape[1:]), x])[: len(x)]
            return sg.lfilter(taps, [1], x, axis=0) + sum(sg.lfilter(c, s[3:], xd, axis=0) for c, s in zip(co, sos))
        return ref

    how = ctx.pick("how", ["set", "fit", "fit_set"])
    d = np.zeros((N, 1))
    d[0] = 1
    g = ctx.pick("gain", [0.1, 1.0, 10.0])
    if how != "set":
        co, fir = ctx.normal(ns, 2) * g, ctx.normal(nf) * g
        ref = system(co, fir, off)
        h = ref(d)
        ir = dsp.ImpulseResponse(None, h.copy(), fs, constrain_amplitude=False)
        before = snap(ir)
        f.fit_to_ir(ir)
        ctx.ok("fit_input", not diff(before, snap(ir)))
        ctx.close("fit_recovers_response", gen.full(f.get_ir(N)), h, 1e-6, 1e-9)
    if how != "fit":
        co, fir = ctx.normal(ns, 2) * g, ctx.normal(ctx.int("new_fir", 0, 6)) * g
        # set coefficients are contiguous
        f.set_coefficients(co.copy(), fir.copy() if len(fir) else None)
        ref = system(co, fir, 1)
        h = ref(d)
        ctx.close("set_response", gen.full(f.get_ir(N)), h, 1e-7, 1e-10)
    protocol(ctx, f, ref, 1e-6)
    n, c = ctx.int("n", 3, 120), ctx.int("ch", 1, 3)
    s = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])(None, ctx.normal(n, c) * 0.01, fs, constrain_amplitude=False)
    before = snap(s)
    o = f.filter_signal(s)
    ctx.ok("input", not diff(before, snap(s)))
    e = ref(s.time_data)
    ctx.close("filter_signal", gen.full(o), e, 1e-6, 1e-11)
    ctx.ok("settings", type(o) is type(s) and settings(o) == settings(s))
    if delay == 0:
        b = f.filter_bank.filter_signal(s, dsp.FilterBankMode.Summed)
        ctx.close("filter_bank", gen.full(b), e, 1e-6, 1e-11)
    ctx.raises("rate_refused", lambda: f.filter_signal(dsp.Signal(None, ctx.normal(20, 1), fs + 1)))
    bad = [lambda: ParallelFilter(np.array([1.1 + 0j]), 0, fs), lambda: ParallelFilter(np.array([0.3 - 0.2j]), 0, fs),
           lambda: ParallelFilter(np.array([0.5 + 0j, 0.5 + 0j]), 0, fs), lambda: ParallelFilter(np.array([0j]), 0, fs),
           lambda: ParallelFilter(p, -1, fs), lambda: f.set_parameters(-1), lambda: f.set_coefficients(np.ones((ns + 1, 2))),
           lambda: f.fit_to_ir(dsp.ImpulseResponse(None, ctx.normal(60, 2), fs))]
    ctx.raises("refused", ctx.pick("bad", bad))


def averaging(ctx):
    fs = ctx.pick("fs", gen.FS)
    up, down = ctx.int("up", 3, 60) / fs, ctx.int("down", 3, 60) / fs
    acc = ctx.pick("accuracy", [0.95, 0.9, 0.5])
    f = ExponentialAverageFilter(up, down, fs, acc)
    cu, cd = 1 - (1 - acc) ** (1 / (up * fs)), 1 - (1 - acc) ** (1 / (down * fs))

    def ref(x):
        y = np.zeros_like(x)
        s = np.zeros(x.shape[1])
        for i, v in enumerate(x):
            k = np.where(v > s, cu, cd)
            s = k * v + (1 - k) * s
            y[i] = s
        return y

    protocol(ctx, f, ref, 1e-8)
    f.set_n_channels(2)
    st = np.ones((200, 2)) * np.array([1.0, -2.0])
    y = run(ctx, f, st)
    n, m = int(round(up * fs)), int(round(down * fs))
    ctx.close("step_response", [y[n - 1, 0], y[m - 1, 1]], [acc, -2 * acc], 1e-6)


def chain(ctx):
    fs = 48000
    k = ctx.int("k", 1, 4)
    fl, refs = [], []
    for _ in range(k):
        q = ctx.pick("type", ["fir", "iir", "lattice", "state_space", "warped", "chain"])
        b, a = iir(ctx, na=ctx.int("na", 1, 3), nb=ctx.int("nb", 1, 4), a0=False)
        if q == "fir":
            fl.append(FIRFilter(b.copy())), refs.append((b, [1.0]))
            continue
        if q == "warped":
            fl.append(WarpedFIR(b[:2].copy(), 0.4, fs))
            c = b[:2]
            refs.append((c[0] * np.array([1, -0.4]) + (c[1] if len(c) > 1 else 0) * np.array([-0.4, 1]), [1, -0.4]))
            continue
        refs.append((b, a))
        flt = make_filter(ctx, b, a, fs)
        g = {"iir": IIRFilter, "lattice": LatticeLadderFilter, "state_space": StateSpaceFilter, "chain": IIRFilter}[q].from_filter(flt)
        fl.append(FilterChain([g]) if q == "chain" else g)
    f = FilterChain(fl)
    ctx.equal("length", f.n_filters, k)

    def ref(x):
        for b, a in refs:
            x = sg.lfilter(b, a, x, axis=0)
        return x

    f.set_n_channels(1)
    protocol(ctx, f, ref, 1e-6)


def independent_instances(ctx):
    """Two objects of the same coefficients never share states."""
    fs = 48000
    b, a = iir(ctx, na=ctx.int("na", 1, 4), nb=ctx.int("nb", 1, 5), a0=False)
    flt = make_filter(ctx, b, a, fs)
    fir = make_filter(ctx, b, np.array([1.0]), fs)
    mk = ctx.pick("type", [
        lambda: IIRFilter.from_filter(flt), lambda: FIRFilter.from_filter(fir), lambda: LatticeLadderFilter.from_filter(flt),
        lambda: StateSpaceFilter.from_filter(flt), lambda: WarpedIIR.from_filter(flt, 0.3), lambda: WarpedFIR.from_filter(fir, -0.3),
        lambda: KautzFilter(np.array([0.5 + 0.2j, 0.3 + 0j]), fs), lambda: ExponentialAverageFilter(0.01, 0.02, fs)])
    f, g, h = mk(), mk(), mk()
    x, z = ctx.normal(40, 1), ctx.normal(40, 1)
    e = run(ctx, f, x, "channel")
    y = []
    for i in range(40):
        y.append(g.process_sample(x[i, 0], 0))
        h.process_sample(z[i, 0], 0)
    ctx.close("instances", np.array(y)[:, None], e, 0, 0)
    k = mk()
    ctx.close("new_instance", run(ctx, k, x, "channel"), e, 0, 0)


MORE = 5  # times the number of cases below in the quick tier
FAMILIES = [
    Family("fir_samples", fir_samples, 150, 2000),
    Family("iir_samples", iir_samples, 200, 3000),
    Family("blocks", blocks, 250, 3000),
    Family("multichannel_blocks", multichannel_blocks, 150, 1500),
    Family("state_variable", state_variable, 120, 1500),
    Family("state_space", state_space, 200, 3000),
    Family("lattice", lattice, 200, 3000),
    Family("kautz", kautz, 150, 2000),
    Family("kautz_poles", kautz_poles, 40, 300),
    Family("warped", warped, 200, 3000),
    Family("parallel", parallel, 150, 2000),
    Family("averaging", averaging, 100, 1000),
    Family("chain", chain, 120, 1500),
    Family("independent_instances", independent_instances, 100, 1000),
]
