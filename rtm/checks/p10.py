"""P10: all views of a filter describe one linear time-invariant system."""

import numpy as np
import scipy.signal as sg
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.checks.p18 import settings

PROPERTY = "P10"
CT = dsp.FilterCoefficientsType


def definition(ctx, fs, complex_p=0.15):
    """A filter together with the function of its creation parameters that
    gives its response at z = exp(j w)."""
    kind = ctx.pick("kind", ["ba", "ba_a0", "ba_delay", "fir", "sos", "zpk", "zpk_origin", "biquad", "iir", "firwin", "gain", "sos_first", "comb"])
    cplx = kind in ("ba", "fir", "ba_a0", "sos") and ctx.flag("complex_coefficients", complex_p)

    def roots(n, rmax, rmin=0.05):
        k = n // 2
        r = ctx.rng.uniform(rmin, rmax, k) * np.exp(1j * ctx.rng.uniform(0.05, 3.1, k))
        out = np.concatenate([r, r.conj()])
        return np.concatenate([out, ctx.rng.uniform(-rmax, rmax, n % 2)])

    def ba_H(b, a):
        return lambda w: np.polyval(b[::-1], np.exp(-1j * w)) / np.polyval(a[::-1], np.exp(-1j * w))

    if kind in ("ba", "ba_a0", "ba_delay"):
        a = np.poly(roots(ctx.int("na", 1, 6), 0.93))
        a = np.real(a)
        b = ctx.normal(ctx.int("nb", 1, 9))
        if cplx:
            b = b + 1j * ctx.normal(len(b))
        if kind == "ba_a0":
            g = ctx.pick("a0", [2.0, -0.5, 7.3])
            a = a * g
        if kind == "ba_delay":
            b = np.concatenate([np.zeros(ctx.int("d", 1, 4)), b])
        f = dsp.Filter.from_ba(b.copy(), a.copy(), fs)
        return f, ba_H(b, a), (b, a)
    if kind == "comb":  # sparse denominator
        a = np.zeros(ctx.int("lag", 2, 9) + 1)
        a[0], a[-1] = 1, ctx.uniform("feedback", -0.8, 0.8)
        b = ctx.normal(ctx.int("nb", 1, 3))
        f = dsp.Filter.from_ba(b.copy(), a.copy(), fs)
        return f, ba_H(b, a), (b, a)
    if kind == "fir":
        b = ctx.normal(ctx.int("nb", 1, 60))
        if cplx:
            b = b + 1j * ctx.normal(len(b))
        a = np.array([ctx.pick("a0", [1.0, 1.0, 2.0])])
        if ctx.flag("trailing_zeros_a", 0.3):
            a = np.concatenate([a, np.zeros(3)])
        f = dsp.Filter.from_ba(list(b) if ctx.flag("list") else b.copy(), a.copy(), fs)
        return f, ba_H(b, a), (b, a)
    if kind in ("sos", "sos_first", "gain"):
        ns = ctx.int("sections", 1, 3) if kind != "gain" else 1
        sos = []
        for _ in range(ns):
            if kind == "gain":
                sos.append([ctx.uniform("g", -2, 2), 0, 0, 1, 0, 0])
            elif kind == "sos_first":
                sos.append([*ctx.normal(2), 0, 1, ctx.rng.uniform(-0.9, 0.9), 0])
            else:
                sos.append([*ctx.normal(3), *np.real(np.poly(roots(2, 0.93)))])
        sos = np.array(sos)
        if cplx:
            sos = sos.astype(complex)
            sos[:, :3] += 1j * ctx.normal(ns, 3)
        f = dsp.Filter.from_sos(sos.copy(), fs)

        def H(w):
            o = np.ones(len(w), complex)
            for s in sos:
                o = o * ba_H(s[:3], s[3:])(w)
            return o

        return f, H, sos
    if kind in ("zpk", "zpk_origin"):
        n = ctx.int("n", 1, 6) if kind == "zpk" else ctx.int("np", 0, 6)
        p = roots(n, 0.93)
        z = roots(n if kind == "zpk" else ctx.int("nz", 0, 7), 1.6)
        k = ctx.uniform("k", -2, 2)
        f = dsp.Filter.from_zpk(z.copy(), p.copy(), k, fs)
        d = 0  # missing zeros or poles are at the origin

        def H(w):
            e = np.exp(-1j * w)
            o = np.full(len(w), k, complex)
            for q in z:
                o = o * (1 - q * e)
            for q in p:
                o = o / (1 - q * e)
            return o

        return f, H, (z, p, k)
    if kind == "biquad":
        f = gen.random_filter(ctx, fs, ("biquad",))
    elif kind == "iir":
        pt = ctx.pick("pass", list(dsp.FilterPassType))
        lo = ctx.uniform("f0", 0.05 * fs, 0.15 * fs)
        fr = [lo, lo * 2] if pt in (dsp.FilterPassType.Bandpass, dsp.FilterPassType.Bandstop) else lo
        f = dsp.Filter.iir_filter(
            ctx.int("order", 1, 4), fr, pt, fs, ctx.pick("design", list(dsp.IirDesignMethod)), 1.0, 40.0)
    else:
        f = gen.random_filter(ctx, fs, ("fir",))
    if hasattr(f, "sos"):
        sos = np.array(f.sos)

        def H(w):
            o = np.ones(len(w), complex)
            for s in sos:
                o = o * ba_H(s[:3], s[3:])(w)
            return o

        return f, H, sos
    b, a = [np.array(q) for q in f.ba]
    return f, ba_H(b, a), (b, a)


def decay(f):
    """Samples until the impulse response has vanished."""
    p = f.get_coefficients(CT.Zpk)[1]
    r = np.abs(p).max() if len(p) else 0.0
    n = 40 * 2 / -np.log(max(r, 1e-3)) if r < 1 else np.inf
    return n + f.order + 20


def views(ctx):
    fs = ctx.pick("fs", gen.FS)
    f, H, D = definition(ctx, fs)
    w = np.concatenate([[0.0], np.sort(ctx.rng.uniform(0, np.pi, 30)), [np.pi]])
    fr = w / 2 / np.pi * fs
    fr[-1] = fs / 2
    h = H(w)
    sc = np.abs(h).max()
    big = f.order > 25
    ctx.need(np.isfinite(sc))
    ctx.close("transfer_function", f.get_transfer_function(fr), h, 1e-6 if not big else 1e-9, scale=sc)
    b, a = f.get_coefficients(CT.Ba)
    ctx.close("coefficients_ba", sg.freqz(b, a, w)[1], h, 1e-6, scale=sc)
    if not big and np.any(b):
        if not np.iscomplexobj(b):
            sos = f.get_coefficients(CT.Sos)
            ctx.close("coefficients_sos", np.prod([np.polyval(s[2::-1], np.exp(-1j * w)) / np.polyval(s[:2:-1], np.exp(-1j * w)) for s in sos], axis=0), h, 1e-5, scale=sc)
        z, p, k = f.get_coefficients(CT.Zpk)
        e = np.exp(-1j * w)[:, None]
        hz = k * np.prod(1 - np.asarray(z)[None] * e, axis=1) / np.prod(1 - np.asarray(p)[None] * e, axis=1)
        # Leading zeros of b are a pure delay, not contained in zeros and poles
        b0 = f.get_coefficients(CT.Ba)[0]
        d = np.flatnonzero(np.abs(b0) > 0)[0]
        if not hasattr(f, "sos"):
            hz = hz * np.exp(-1j * w * d)
        ctx.close("coefficients_zpk", hz, h, 1e-5, scale=sc)
    # Impulse response
    N = decay(f)
    ctx.need(N < 20000)
    N = int(N) + 10
    ir = f.get_ir(N)
    ctx.equal("ir_length", ir.time_data.shape, (N, 1))
    ctx.equal("ir_rate", ir.sampling_rate_hz, fs)
    hi = np.exp(-1j * w[:, None] * np.arange(N)) @ gen.full(ir)[:, 0]
    ctx.close("impulse_response", hi, h, 1e-6, scale=sc)
    # Group delay from the derivative of the response of the definition
    dw = 1e-6
    wi = w[1:-1]
    hh = H(wi)
    gd = -np.imag((H(wi + dw) - H(wi - dw)) / (2 * dw) / hh)
    got = f.get_group_delay(fr[1:-1], in_seconds=False)
    okb = np.abs(hh) > 1e-3 * sc
    ctx.close("group_delay", got[okb], gd[okb], 1e-3 if f.order < 8 else 5e-3, 1e-3, scale=max(np.abs(gd[okb]).max(initial=1), 1))
    ctx.close("group_delay_seconds", f.get_group_delay(fr[1:-1][okb]), got[okb] / fs, 1e-9)
    # Description
    true_fir = not np.any(np.abs(np.asarray(a[1:])) > 0)
    if f.is_fir:
        ctx.ok("fir_flag", true_fir)
    ctx.ok("iir_flag", f.is_iir != f.is_fir)
    ctx.equal("length", len(f), f.order + 1)
    if isinstance(D, np.ndarray):
        degree = sum(2 if s[2] != 0 or s[5] != 0 else 1 for s in D)
        if f.has_zpk:
            degree = max(len(f.zpk[0]), len(f.zpk[1]))
    elif len(D) == 3:
        degree = max(len(D[0]), len(D[1]))
    else:
        degree = max(len(D[0]) - 1, np.max(np.flatnonzero(D[1])))
    ctx.equal("order", f.order, degree)
    ctx.equal("metadata", (f.metadata["sampling_rate_hz"], f.metadata["order"], f.metadata["filter_type"]), (fs, f.order, "fir" if f.is_fir else "iir"))
    ctx.raises("above_nyquist", lambda: f.get_transfer_function(np.array([0.0, fs / 2 + 1])))


def recursion(defn, x):
    """Difference equations evaluated sample by sample."""
    def run(b, a, x):
        b, a = np.asarray(b) / a[0], np.asarray(a) / a[0]
        y = np.zeros(x.shape, np.result_type(b, a, x))
        for n in range(len(x)):
            v = 0
            for i in range(min(len(b), n + 1)):
                v = v + b[i] * x[n - i]
            for i in range(1, min(len(a), n + 1)):
                v = v - a[i] * y[n - i]
            y[n] = v
        return y

    if isinstance(defn, np.ndarray):
        for s in defn:
            x = run(s[:3], s[3:], x)
        return x
    if len(defn) == 3:
        z, p, k = defn
        cplx = np.iscomplexobj(x)
        m = max(len(z), len(p))
        for i in range(m):
            b = [1, -z[i]] if i < len(z) else [1]
            a = [1, -p[i]] if i < len(p) else [1]
            x = run(np.array(b), np.array(a), x)
        return k * x if cplx else np.real(k * x)
    return run(*defn, x)


def some_signal(ctx, fs, n, c, constrain=False):
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    x = ctx.normal(n, c) * 0.2
    if ctx.flag("complex_signal", 0.25):
        x = x + 0.2j * ctx.normal(n, c)
    s = cls(None, x.copy(), fs, constrain_amplitude=constrain)
    s.calibrated_signal = ctx.flag("calib")
    s.set_spectrum_parameters(**gen.random_spectrum_params(ctx, 100, gen.SM.FFT))
    s.set_spectrogram_parameters(**gen.random_spectrogram_params(ctx, 100))
    return s, x


def action(ctx):
    fs = ctx.pick("fs", gen.FS)
    f, H, d = definition(ctx, fs)
    n, c = ctx.int("n", 5, 90), ctx.int("ch", 1, 4)
    s, x = some_signal(ctx, fs, n, c)
    before = settings(s)
    e = recursion(d, x)
    sel = ctx.pick("sel", ["all", "int", "list"])
    if sel == "all":
        idx, arg = np.arange(c), None
    elif sel == "int":
        idx = [ctx.int("k", 0, c - 1)]
        arg = idx[0]
    else:
        idx = ctx.rng.permutation(c)[: ctx.int("nsel", 1, c)]
        arg = list(idx)
    o = f.filter_signal(s, arg)
    y = gen.full(o)
    ctx.close("difference_equation", y[:, idx], e[:, idx], 1e-7, 1e-12)
    rest = np.setdiff1d(np.arange(c), idx)
    ctx.equal("other_channels", y[:, rest], x[:, rest].astype(y.dtype))
    ctx.equal("output_settings", settings(o), before)
    ctx.equal("input_kept", gen.full(s), x)
    ctx.equal("input_settings_kept", settings(s), before)
    # Repeating gives the same: no hidden state
    ctx.equal("repeatable", gen.full(f.filter_signal(s, arg)), y)
    # Linear and time invariant
    u = ctx.normal(n, c) * 0.3
    al, be = ctx.uniform("al", -2, 2), ctx.uniform("be", -2, 2)
    mk = lambda q: dsp.Signal(None, q, fs)
    lin = gen.full(f.filter_signal(mk(al * x + be * u)))
    ctx.close("linear", lin, al * gen.full(f.filter_signal(mk(x.copy()))) + be * gen.full(f.filter_signal(mk(u))), 1e-9, 1e-12)
    k = ctx.int("shift", 1, 20)
    sh = gen.full(f.filter_signal(mk(np.concatenate([np.zeros((k, c)), x]))))
    ctx.close("time_invariant", sh[k:], gen.full(f.filter_signal(mk(x.copy()))), 1e-9, 1e-12)
    ctx.close("causal", sh[:k], np.zeros((k, c)), 0, 1e-12)
    # Constrained signals: scaled as a whole
    sc, xc = some_signal(ctx, fs, n, c, True)
    oc = f.filter_signal(sc)
    ec = recursion(d, gen.full(sc))
    if np.iscomplexobj(ec):
        m = max(np.abs(ec.real).max(), np.abs(ec.imag).max())
    else:
        m = np.abs(ec).max()
    ctx.need(abs(m - 1) > 1e-6)
    ctx.close("constrained", gen.full(oc), ec / max(m, 1), 1e-7, 1e-12)
    ctx.raises("wrong_rate", lambda: f.filter_signal(dsp.Signal(None, x.real.copy(), fs + 1)))
    ctx.raises("bad_channel", lambda: f.filter_signal(s, c))
    ctx.raises("zero_phase_and_state", lambda: f.filter_signal(s, activate_zi=True, zero_phase=True))


def zero_phase(ctx):
    fs = ctx.pick("fs", gen.FS)
    f, H, d = definition(ctx, fs, 0.0)
    N = decay(f)
    ctx.need(N < 3000)
    N = int(N) + 3 * (f.order + 2)
    core = ctx.int("core", 10, 300)
    c = ctx.int("ch", 1, 3)
    x = np.zeros((2 * N + core, c))
    x[N : N + core] = ctx.normal(core, c) * 0.3
    s = dsp.Signal(None, x.copy(), fs)
    k = ctx.int("k", 0, c - 1)
    arg = None if ctx.flag("all") else k
    idx = np.arange(c) if arg is None else [k]
    y = f.filter_signal(s, arg, zero_phase=True).time_data
    L = len(x)
    w = 2 * np.pi * np.arange(L // 2 + 1) / L
    e = x.copy()
    e[:, idx] = np.fft.irfft(np.fft.rfft(x, axis=0) * (np.abs(H(w)) ** 2)[:, None], L, axis=0)[:, idx]
    ctx.close("zero_phase", y, e, 1e-6)
    # Impulse response of zero-phase filtering
    M = 2 * N
    ir = f.get_ir(M, zero_phase=True).time_data[:, 0]
    w = 2 * np.pi * np.arange(M // 2 + 1) / M
    ctx.close("zero_phase_ir", np.abs(np.fft.rfft(ir)), np.abs(H(w)) ** 2, 1e-5)


def independent(ctx):
    """The filter owns its coefficients; copies returned are copies."""
    fs = 48000
    w = np.linspace(10, 20000, 20)
    kind = ctx.pick("kind", ["ba", "sos", "zpk"])
    if kind == "ba":
        args = [ctx.normal(4), np.array([1.0, 0.3])]
        f = dsp.Filter.from_ba(*args, fs)
    elif kind == "sos":
        args = [np.array([[*ctx.normal(3), 1, 0.2, 0.1]])]
        f = dsp.Filter.from_sos(*args, fs)
    else:
        args = [np.array([0.3, -0.2]), np.array([0.5, 0.1])]
        f = dsp.Filter.from_zpk(*args, 1.0, fs)
    H = f.get_transfer_function(w)
    cs = [[np.array(q) for q in f.get_coefficients(t)] for t in CT]
    for a in args:
        a *= 0.5
    ctx.equal("arrays_given_are_copied", f.get_transfer_function(w), H)
    for t in CT:
        got = f.get_coefficients(t)
        for q in got:
            if isinstance(q, np.ndarray):
                q *= 0.3
    ctx.equal("coefficients_returned_are_copies", f.get_transfer_function(w), H)
    for t, c in zip(CT, cs):
        for q, r in zip(f.get_coefficients(t), c):
            ctx.close("coefficients_same", q, r, 1e-12)
    g = f.copy()
    ctx.equal("copy_same", g.get_transfer_function(w), H)


MORE = 8  # times the number of cases below in the quick tier
FAMILIES = [
    Family("views", views, 600, 8000),
    Family("action", action, 400, 5000),
    Family("zero_phase", zero_phase, 300, 4000),
    Family("independent", independent, 60, 300),
]
