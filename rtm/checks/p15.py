"""P15: crossovers and analysis banks reconstruct."""

import numpy as np
import scipy.signal as sg
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff
from rtm.checks.p18 import settings

PROPERTY = "P15"
FBK = dsp.filterbanks
FM = dsp.FilterBankMode
PT = dsp.FilterPassType


def db(x):
    return 20 * np.log10(np.maximum(np.abs(x), 1e-300))


def dtft(h, w):
    """h (n, ...) at angular frequencies w -> (len(w), ...)"""
    h = np.asarray(h)
    return np.tensordot(np.exp(-1j * np.outer(w, np.arange(h.shape[0]))), h, axes=(1, 0))


def lr_ref(f0, order, fs):
    """(low, high) responses as functions of w, from their analog definitions."""
    def fn(w):
        s = 1j * np.tan(w / 2) / np.tan(np.pi * f0 / fs)
        if order == 2:
            return 1 / (1 + s) ** 2, -(s**2) / (1 + s) ** 2
        m = order // 2 if order % 2 == 0 else order
        k = np.arange(1, m + 1)
        p = np.exp(1j * np.pi * (2 * k + m - 1) / (2 * m))
        den = np.prod(s[..., None] - p, axis=-1)
        e = 2 if order % 2 == 0 else 1
        return (1 / den) ** e, (s**m / den) ** e

    return fn


def lr(ctx):
    fs = ctx.pick("fs", gen.FS)
    k = ctx.int("k", 1, 4)
    f0 = fs * ctx.uniform("f0", 0.012, 0.03)
    fr = f0 * np.cumprod(np.concatenate([[1], ctx.rng.uniform(1.3, 2.6, k - 1)]))
    orders = [ctx.pick("order", [1, 2, 3, 4, 5, 7, 8, 12]) for _ in range(k)]
    same = ctx.flag("same", 0.3)
    if same:
        orders = [orders[0]] * k
    perm = ctx.rng.permutation(k)
    fin = list(fr[perm])
    oin = orders[0] if same and ctx.flag("scalar") else [orders[i] for i in perm]
    farg = fin if k > 1 else ctx.pick("fform", [fin, fin[0], np.array(fin)])
    fb = FBK.linkwitz_riley_crossovers(farg, oin, fs)
    ctx.equal("lr_meta", (fb.number_of_bands, fb.number_of_cross, fb.sampling_rate_hz), (k + 1, k, fs))
    ctx.close("lr_sorted", fb.freqs, fr, 1e-12)
    ctx.close("lr_sorted_orders", np.asarray(fb.order, float), np.asarray(orders, float))
    n = 4096
    c = ctx.int("ch", 1, 3)
    x = np.zeros((n, c))
    g = ctx.rng.uniform(0.2, 2, c) * ctx.rng.choice([-1, 1], c)
    x[0] = g
    s = dsp.Signal(None, x.copy(), fs)
    before = snap(s)
    mb = fb.filter_signal(s)
    ctx.equal("lr_input_unchanged", diff(before, snap(s)), None)
    ctx.ok("lr_type", type(mb) is dsp.MultiBandSignal and mb.number_of_bands == k + 1 and len(mb.bands[0]) == n)
    for b in mb.bands:
        ctx.equal("lr_settings", settings(b), settings(s))
    w = np.sort(np.concatenate([np.exp(ctx.rng.uniform(np.log(0.01), np.log(3.0), 60)), 2 * np.pi * fr / fs]))
    # expected tree: split, then the crossovers above as allpass on each band
    rest = np.ones(len(w), complex)
    refs = [lr_ref(fr[i], orders[i], fs)(w) for i in range(k)]
    exp = []
    for i in range(k):
        e = rest * refs[i][0]
        for j in range(i + 1, k):
            e = e * (refs[j][0] + refs[j][1])
        exp.append(e)
        rest = rest * refs[i][1]
    exp.append(rest)
    got = [dtft(b.time_data, w) / g for b in mb.bands]
    for i in range(k + 1):
        ctx.close("lr_band_response", got[i], np.repeat(exp[i][:, None], c, 1), 2e-5, 1e-6, scale=1.0, msg=f"band {i} {orders}")
    total = np.sum(got, axis=0)
    ctx.close("lr_sum_allpass", np.abs(total), np.ones_like(np.abs(total)), 1e-4)
    su = fb.filter_signal(s, FM.Summed)
    ctx.close("lr_summed_mode", gen.full(su), np.sum([b.time_data for b in mb.bands], axis=0), 1e-9)
    ctx.ok("lr_summed_type", type(su) is dsp.Signal and settings(su) == settings(s))
    # crossing levels where the crossover stands alone
    for i in range(k):
        alone = all(abs(np.log2(fr[i] / fr[j])) * orders[j] * 6 > 60 for j in range(k) if j != i)
        if alone:
            hw = np.array([2 * np.pi * fr[i] / fs])
            lv = [db(dtft(mb.bands[q].time_data, hw) / g) for q in (i, i + 1)]
            ctx.close("lr_crossing_level", lv, np.full((2, 1, c), -6.0206 if orders[i] % 2 == 0 else -3.0103), 0, 0.05)
    # order of the bands
    ww = np.exp(np.linspace(np.log(1e-3), np.log(3.1), 400))
    prev = -1.0
    for i, b in enumerate(mb.bands):
        H = np.abs(dtft(b.time_data[:, 0], ww)) / abs(g[0])
        cen = float(np.sum(ww * H**4 / ww) / np.sum(H**4 / ww))
        ctx.ok("lr_band_order", cen > prev or min(orders) < 3)
        prev = cen
    ctx.equal("lr_input_list", fin, list(fr[perm]))
    # impulse response of the bank
    ir = fb.get_ir(n)
    for i, b in enumerate(ir.bands):
        ctx.close("lr_get_ir", b.time_data[:, 0], mb.bands[i].time_data[:, 0] / g[0], 1e-9, 1e-12)
    ctx.raises("lr_other_rate", lambda: fb.filter_signal(dsp.Signal(None, x, fs * 2)))


def lr_zero_phase(ctx):
    """Zero-phase: the bands' magnitudes add up to one, so the sum is the input."""
    fs = ctx.pick("fs", gen.FS)
    k = ctx.int("k", 1, 3)
    fr = fs * 0.03 * np.cumprod(np.concatenate([[1], ctx.rng.uniform(1.4, 2.6, k - 1)]))
    orders = [ctx.pick("order", [1, 3, 4, 5, 8]) for _ in range(k)]
    fb = FBK.linkwitz_riley_crossovers(fr, orders, fs)
    n, c = 3000, ctx.int("ch", 1, 3)
    x = np.zeros((n, c))
    x[1200:1500] = ctx.normal(300, c)
    s = dsp.Signal(None, x.copy(), fs)
    mb = fb.filter_signal(s, zero_phase=True)
    ctx.close("lrz_sum", np.sum([b.time_data for b in mb.bands], axis=0), x, 1e-5)
    # band i keeps the phase: symmetric for an impulse
    x = np.zeros((n, 1))
    x[n // 2] = 1
    mb = fb.filter_signal(dsp.Signal(None, x, fs), zero_phase=True)
    for i, b in enumerate(mb.bands):
        y = b.time_data[:, 0]
        ctx.close("lrz_symmetric", y[1:], y[1:][::-1], 0, 1e-6)
    if k == 1:
        lv = db(dtft(np.stack([b.time_data[:, 0] for b in mb.bands], 1), np.array([2 * np.pi * fr[0] / fs])))
        ctx.close("lrz_crossing", lv, np.full((1, 2), -6.0206), 0, 0.01)
    ctx.raises("lrz_with_state", lambda: fb.filter_signal(s, zero_phase=True, activate_zi=True))


def reconstructing(ctx):
    fs = ctx.pick("fs", [16000, 44100, 48000])
    frac = ctx.pick("frac", [1, 1, 3])
    n = 2 ** ctx.int("log2n", 8, 12)
    lo = ctx.pick("lo", [63, 125, 250])
    hi = ctx.pick("hi", [1000, 4000, 8000, 16000])
    ov = ctx.pick("overlap", [0, 0.5, 1, ctx.uniform("ovu", 0, 1)])
    sl = ctx.int("slope", 0, 3)
    rng = [lo, hi]
    fb = FBK.reconstructing_fractional_octave_bands(rng, frac, ov, sl, n, fs)
    ctx.equal("rec_range_input", rng, [lo, hi])
    B = np.stack([np.asarray(f.ba[0]) for f in fb.filters], 1)
    ctx.equal("rec_length", B.shape[0], n)
    ctx.ok("rec_fir", all(f.is_fir and f.sampling_rate_hz == fs for f in fb.filters))
    e = np.zeros(n)
    e[n // 2] = 1
    # slopes are rounded to bins: those of very narrow bands may touch
    tol = 4 / n**2 + 1e-12 if 0.7 * lo / frac * n / fs > 8 else 5e-3
    ctx.close("rec_sum_impulse", B.sum(axis=1), e, tol)
    for i in range(B.shape[1]):
        h = B[:, i]
        ctx.close("rec_linear_phase", h[1:] , h[1:][::-1], 0, 0.02 * np.abs(h).max(), msg=str(i))
    # a signal comes out delayed
    c = ctx.int("ch", 1, 3)
    x = ctx.normal(2 * n, c)
    s = dsp.Signal(None, x.copy(), fs)
    mb = fb.filter_signal(s, FM.Parallel)
    y = mb.collapse().time_data
    d = np.zeros_like(x)
    d[n // 2:] = x[: -(n // 2)]
    ctx.close("rec_signal", y, d, 10 * tol)
    ctx.close("rec_summed", fb.filter_signal(s, FM.Summed).time_data, d, 10 * tol)
    # bands where they belong: exact mid frequencies from the octave series
    k0 = np.round(frac * np.log10(np.array([lo, hi]) / 1000) / 0.3).astype(int)
    fm = 1000 * 10 ** (0.3 * np.arange(k0[0], k0[1] + 1) / frac)
    fm = fm[fm < fs / 2]
    ctx.equal("rec_band_count", B.shape[1], len(fm))
    edge = fm * 10 ** (0.15 / frac)
    for i in range(len(fm)):
        wide = (fm[i] * (10 ** (0.15 / frac) - 10 ** (-0.15 / frac))) / (fs / n)
        if wide < 8:
            continue
        H = np.abs(dtft(B, 2 * np.pi * np.array([fm[i]]) / fs))[0]
        ctx.ok("rec_mid_band", H[i] > 0.85, f"{i} {fm[i]} {H}")
        if i + 1 < len(fm) and edge[i] < fs / 2 * 0.95 and wide > 40:
            # half amplitude within the resolution of one bin
            df = fs / n
            ff = np.array([edge[i] - 2.5 * df, edge[i] + 2.5 * df])
            H = np.abs(dtft(B[:, [i, i + 1]], 2 * np.pi * ff / fs))
            ctx.ok("rec_edge", H[0, 0] >= H[0, 1] - 0.02 and H[1, 1] >= H[1, 0] - 0.02, f"{i} {edge[i]} {H}")
    out = [dtft(B[:, i], np.array([2 * np.pi * fm[j] / fs])) for i in range(len(fm)) for j in (i,)]
    ctx.event("bands", len(out))
    for bad in (-0.1, 1.1):
        ctx.raises("rec_bad_overlap", lambda: FBK.reconstructing_fractional_octave_bands(rng, frac, bad, sl, n, fs))
    ctx.raises("rec_bad_length", lambda: FBK.reconstructing_fractional_octave_bands(rng, frac, ov, sl, n - 1, fs))


def gammatone(ctx):
    fs = ctx.pick("fs", [16000, 22050, 44100, 48000])
    lo = ctx.logu("lo", 60, 400)
    hi = ctx.uniform("hi", 0.2, 0.42) * fs
    res = ctx.pick("res", [0.3, 0.5, 0.7, 1.0])
    rng = [lo, hi]
    fb = FBK.auditory_filters_gammatone(rng, res, fs)
    ctx.equal("gt_range_input", rng, [lo, hi])
    fc = next(v for k, v in sorted(vars(fb).items(), key=lambda q: "freq" not in q[0]) if isinstance(v, np.ndarray) and v.ndim == 1 and len(v) == fb.number_of_filters)
    erb = lambda f: 9.265 * np.log(1 + f / (24.7 * 9.265))
    ctx.close("gt_spacing", np.diff(erb(fc)), np.full(len(fc) - 1, res), 1e-3)
    ctx.ok("gt_range", fc[0] >= lo * 0.999 and fc[-1] <= hi * 1.001 and erb(fc[0]) - erb(lo) < res and erb(hi) - erb(fc[-1]) < res)
    ctx.equal("gt_count", fb.number_of_filters, len(fc))
    # each filter: gain 2 (analytic signal) at its frequency, 4th order envelope
    n = fs // 2
    c = ctx.int("ch", 1, 3)
    x = np.zeros((n, c))
    pos = ctx.int("pos", 0, n // 3)
    g = ctx.rng.uniform(0.2, 0.9, c) * ctx.rng.choice([-1, 1], c)
    x[pos] = g
    s = dsp.Signal(None, x.copy(), fs)
    before = snap(s)
    mb = fb.filter_signal(s, FM.Parallel)
    ctx.equal("gt_input_unchanged", diff(before, snap(s)), None)
    i = ctx.int("band", 0, len(fc) - 1)
    h = gen.full(mb.bands[i])[pos:] / g
    t = np.arange(len(h))
    bw = (24.7 + fc[i] / 9.265) / (np.pi * 720 * 2.0**-6 / 36)
    lam = np.exp(-2 * np.pi * bw / fs)
    e = 2 * (1 - lam) ** 4 * (t + 1) * (t + 2) * (t + 3) / 6 * (lam * np.exp(2j * np.pi * fc[i] / fs)) ** t
    ctx.close("gt_impulse_response", h, np.repeat(e[:, None], c, 1), 1e-7)
    H = np.abs(dtft(h[:, 0], 2 * np.pi * fc / fs))
    ctx.equal("gt_peak_band", int(np.argmax(H)), i)
    ctx.close("gt_centre_gain", H[i], 2.0, 1e-4)
    # reconstruction of the impulse after 4 ms
    before = snap(mb)
    r = fb.reconstruct(mb)
    ctx.equal("gt_reconstruct_input", diff(before, snap(mb)), None)
    ctx.ok("gt_reconstruct_real", type(r) is dsp.Signal and r.time_data_imaginary is None and r.sampling_rate_hz == fs and r.time_data.shape == (n, c))
    y = r.time_data / g
    ctx.ok("gt_channels_alike", np.allclose(y, y[:, [0]], atol=1e-9))
    d = int(np.round(0.004 * fs))
    ctx.ok("gt_reconstruct_causal", np.max(np.abs(y[:pos + 1])) < 1e-2, np.max(np.abs(y[:pos + 1])))
    ctx.ok("gt_reconstruct_peak", abs(int(np.argmax(np.abs(y[:, 0]))) - pos - d) <= 1, f"{np.argmax(np.abs(y[:, 0])) - pos} {d}")
    w = 2 * np.pi * np.linspace(max(300, lo * 1.3), hi * 0.9, 120) / fs
    R = dtft(y[:, 0], w)
    tol = 1.0 if res <= 0.5 else 2.5
    hf = w > 2 * np.pi * 900 / fs
    ctx.ok("gt_reconstruct_magnitude", np.max(np.abs(db(R[hf]))) < tol, f"{db(R[hf]).min()} {db(R[hf]).max()}")
    ctx.ok("gt_reconstruct_level", np.median(np.abs(db(R))) < 0.5, np.median(np.abs(db(R))))
    ph = R * np.exp(1j * w * (pos + d))
    ctx.ok("gt_reconstruct_phase", np.median(np.abs(np.angle(ph[hf]))) < 0.2, np.median(np.abs(np.angle(ph[hf]))))


def gammatone_signal(ctx):
    """Reconstruction is linear and not circular; a band-limited signal comes
    out delayed by 4 ms."""
    fs = ctx.pick("fs", [16000, 44100])
    res = ctx.pick("res", [0.4, 0.5])
    fb = FBK.auditory_filters_gammatone([80, 0.42 * fs], res, fs)
    n, c = fs // 4, ctx.int("ch", 1, 2)
    x = ctx.normal(n, c)
    x = sg.sosfiltfilt(sg.butter(4, [1200, 0.3 * fs], "bandpass", fs=fs, output="sos"), x, axis=0)
    k = ctx.pick("tail", ["end", "middle"])
    if k == "middle":
        x *= np.hanning(n)[:, None]
    s = dsp.Signal(None, x.copy(), fs)
    y = fb.reconstruct(fb.filter_signal(s, FM.Parallel)).time_data
    d = int(np.round(0.004 * fs))
    e = np.zeros_like(x)
    e[d:] = x[:-d]
    u = slice(n // 10, n)
    err = np.sqrt(np.mean((y[u] - e[u]) ** 2) / np.mean(e[u] ** 2))
    ctx.ok("gts_delayed_input", err < 0.25, err)
    # samples before any input stay silent: nothing wraps around
    z = x.copy()
    z[: n // 2] = 0
    y = fb.reconstruct(fb.filter_signal(dsp.Signal(None, z, fs), FM.Parallel)).time_data
    ctx.ok("gts_not_circular", np.max(np.abs(y[: n // 2])) < 1e-9 * np.abs(y).max() + 1e-12, np.max(np.abs(y[: n // 2])))
    ctx.raises("gts_needs_complex", lambda: fb.reconstruct(dsp.MultiBandSignal([s] * fb.number_of_filters, True)))


def qmf(ctx):
    fs = ctx.pick("fs", [16000, 44100, 48000])
    kind = ctx.pick("kind", ["haar", "firwin", "random", "iir"])
    n, c = 2 * ctx.int("n2", 60, 300), ctx.int("ch", 1, 3)
    x = ctx.normal(n, c) * 0.2
    s = dsp.Signal(None, x.copy(), fs)
    if kind == "iir":
        lp = dsp.Filter.iir_filter(ctx.int("order", 1, 5), fs / 4, PT.Lowpass, fs)
        bh = None
    else:
        N = 2 if kind == "haar" else ctx.int("taps", 3, 40)
        b = np.array([0.5, 0.5]) if kind == "haar" else sg.firwin(N, 0.5) if kind == "firwin" else ctx.normal(N)
        lp = dsp.Filter.from_ba(b, [1.0], fs)
        bh = b * (-1.0) ** np.arange(N)
    q = FBK.qmf_crossover(lp)
    ctx.equal("qmf_count", (q.number_of_filters, len(q.filters_synthesis)), (2, 2))
    # mirror: |H1(w)| = |H0(pi - w)|
    w = np.linspace(0.05, 3.09, 50)
    f = w * fs / 2 / np.pi
    H0 = q.filters[0].get_transfer_function(f)
    H1 = q.filters[1].get_transfer_function(fs / 2 - f)
    ctx.close("qmf_mirror", np.abs(H1), np.abs(H0), 1e-6)
    # without decimation: plain filtering
    mb = q.filter_signal(s, FM.Parallel)
    r = q.reconstruct_signal(mb)
    ba = [np.asarray(lp.ba[0]), np.asarray(lp.ba[1])] if bh is not None else sg.zpk2tf(*lp.zpk)
    sign = lambda p: p * (-1.0) ** np.arange(len(p))
    m = lambda y, p: sg.lfilter(p[0], p[1], y, axis=0)
    if bh is not None:
        hb = [sign(ba[0]), sign(ba[1])]
    else:
        hb = sg.zpk2tf(-lp.zpk[0], -lp.zpk[1], lp.zpk[2])
    e = m(m(x, ba), ba) - m(m(x, hb), hb)
    # FIR synthesis filters compensate for their own latency
    sh = range(0, len(ba[0]) + 1) if bh is not None else [0]
    errs = {d: np.abs(r.time_data[: n - d] - e[d:])[: n - 50].max() for d in sh}
    ctx.ok("qmf_plain", min(errs.values()) < 1e-6 * np.abs(e).max() + 1e-9, f"{min(errs.values())} {min(errs, key=errs.get)}")
    ctx.equal("qmf_input", s.time_data, x)
    ctx.equal("qmf_settings", (settings(r), len(r)), (settings(s), n))
    # maximally decimated: aliasing cancels, what is left is T = H0^2 - H1^2
    if bh is not None and c > 0:
        md = q.filter_signal(s, FM.Parallel, downsample=True)
        ctx.equal("qmf_decimated_rate", [b.sampling_rate_hz for b in md.bands], [fs // 2] * 2)
        r = q.reconstruct_signal(md, True)
        ctx.equal("qmf_back_rate", r.sampling_rate_hz, fs)
        N = len(ba[0])
        T = np.convolve(ba[0], ba[0]) - np.convolve(bh, bh)
        e = sg.lfilter(T, [1.0], x, axis=0)
        y = r.time_data
        lo, hi = 2 * N + 4, n - 2 * N - 8
        if hi - lo > 20:
            errs = {}
            for d in range(-2 * N, 2):
                errs[d] = np.abs(y[lo + d : hi + d] - e[lo:hi]).max()
            d = min(errs, key=errs.get)
            ctx.ok("qmf_no_aliasing", errs[d] < 1e-9 * max(1, np.abs(e).max()), f"{errs[d]} {d}")
            if kind == "haar":
                ctx.close("qmf_perfect", y[: n - 2], x[: n - 2] if d == -1 else np.concatenate([np.zeros((1, c)), x])[: n - 2], 1e-9)
            su = q.filter_signal(s, FM.Summed, downsample=True)
            ctx.close("qmf_summed", su.time_data, sum(b.time_data for b in md.bands), 1e-12)
            ctx.equal("qmf_summed_rate", su.sampling_rate_hz, fs // 2)
    ctx.raises("qmf_zero_phase_decimated", lambda: q.filter_signal(s, FM.Parallel, True, True))
    ctx.raises("qmf_three_bands", lambda: q.reconstruct_signal(dsp.MultiBandSignal([s, s, s], True)))


def octave_energy(ctx):
    """Even-order octave bands preserve energy inside the covered range."""
    fs = ctx.pick("fs", [44100, 48000])
    frac = ctx.pick("frac", [1, 3])
    order = ctx.pick("order", [2, 4, 6, 8])
    fb, fc, (fl, fu) = FBK.fractional_octave_bands([125.0, 4000.0], frac, order, fs)
    f = np.exp(np.linspace(np.log(fc[0]), np.log(fc[-1]), 150))
    P = np.zeros(len(f))
    for k in fb.filters:
        P += np.abs(k.get_transfer_function(f)) ** 2
    # two neighbouring Butterworth bands overlap at -3 dB
    ctx.ok("octave_energy_sum", np.all(P > 0.8) and np.all(P < 1.35), f"{P.min()} {P.max()}")
    ctx.close("octave_energy_mean", np.mean(P), 1.0, 0, 0.12)
    # noise through the bank, zero phase
    ctx.ok("octave_order", np.all(np.diff(fc) > 0) and np.allclose(fu[:-1], fl[1:]))
    for i, k in enumerate(fb.filters):
        H = np.abs(k.get_transfer_function(fc))
        ctx.equal("octave_peak", int(np.argmax(H)), i)


def complementary(ctx):
    """Split with an FIR filter and its complement: the sum is delayed."""
    fs = ctx.pick("fs", gen.FS)
    pt = ctx.pick("pass", list(PT))
    order = 2 * ctx.int("order2", 10, 80)
    f1 = ctx.uniform("f1", fs * 0.1, fs * 0.2)
    fr = [f1, f1 * 1.7] if pt in (PT.Bandpass, PT.Bandstop) else f1
    f = dsp.Filter.fir_filter(order, fr, pt, fs)
    g = FBK.complementary_fir_filter(f)
    fb = dsp.FilterBank([f, g])
    x = ctx.normal(ctx.int("n", 300, 600), ctx.int("ch", 1, 3))
    s = dsp.Signal(None, x.copy(), fs)
    d = order // 2
    e = np.zeros_like(x)
    e[d:] = x[:-d]
    ctx.close("compl_summed", fb.filter_signal(s, FM.Summed).time_data, e, 1e-10)
    w = np.linspace(0.01, 3.13, 100) * fs / 2 / np.pi
    H, G = f.get_transfer_function(w), g.get_transfer_function(w)
    ctx.close("compl_magnitude", np.abs(H + G), np.ones(100), 1e-9)
    q = [0.02 * fs, 0.49 * fs, np.mean(fr)]
    hi = np.abs(g.get_transfer_function(np.array(q)))
    want = {PT.Lowpass: (0, 0), PT.Highpass: (0, 1), PT.Bandpass: (0, 1), PT.Bandstop: (0, 0)}[pt]
    p = {PT.Lowpass: (0, 1), PT.Highpass: (1, 0), PT.Bandpass: (1, None), PT.Bandstop: (0, None)}[pt]
    if order >= 80:
        ctx.close("compl_low", hi[0], float(p[0]), 0, 0.05)
        if p[1] is not None:
            ctx.close("compl_high", hi[1], float(p[1]), 0, 0.05)


FAMILIES = [
    Family("lr", lr, 250, 6000),
    Family("lr_zero_phase", lr_zero_phase, 100, 2000),
    Family("reconstructing", reconstructing, 120, 2500),
    Family("gammatone", gammatone, 40, 600),
    Family("gammatone_signal", gammatone_signal, 24, 300),
    Family("qmf", qmf, 250, 6000),
    Family("octave_energy", octave_energy, 16, 60),
    Family("complementary", complementary, 150, 3000),
]
