"""P08: cross-spectral matrices."""

import numpy as np
import scipy.fft
import scipy.signal as sig
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.gen import SS, SM
from rtm.checks.p07 import WINS, cols

PROPERTY = "P08"


def make(ctx, power_only=False, nmin=200, nmax=3000, kinds=("noise", "mixture", "decay", "tone")):
    x, fs = gen.array(ctx, nmin, nmax, (2, 5), kinds=kinds)
    # correlate the channels
    if ctx.flag("mix"):
        x = x @ ctx.normal(x.shape[1], x.shape[1])
    sp = gen.random_spectrum_params(ctx, 200)
    sp["smoothing"] = 0
    if power_only:
        sp["scaling"] = ctx.pick("pscaling", gen.POWER_SCALINGS)
    return x, fs, sp


def build(x, fs, sp, cls=dsp.Signal, window=None):
    s = cls(None, x.copy(), fs, constrain_amplitude=False)
    s.set_spectrum_parameters(**sp)
    if window is not None:
        s.set_window(window.copy())
    return s


def structure(ctx):
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    x, fs, sp = make(ctx)
    w = None
    if cls is dsp.ImpulseResponse and ctx.flag("window"):
        w = np.abs(ctx.normal(*x.shape)) + 0.1
    s = build(x, fs, sp, cls, w)
    f, c = s.get_csm()
    n = x.shape[1]
    ff, auto = s.get_spectrum()
    ctx.close("frequencies", f, ff, 1e-12)
    ctx.ok("shape", c.shape == (len(f), n, n), str(c.shape))
    ctx.close("hermitian", c, np.conj(np.swapaxes(c, 1, 2)), 1e-10)
    d = np.einsum("fii->fi", c)
    ctx.close("diagonal_real", d.imag, np.zeros_like(d.imag), 0, atol=1e-10 * np.abs(c).max())
    ctx.ok("diagonal_nonnegative", np.all(d.real >= -1e-10 * np.abs(c).max()))
    a = np.abs(auto)
    if sp["method"] == SM.FFT and sp["scaling"] in gen.FFT_SCALINGS:
        a = a**2
    ctx.close("diagonal_is_auto_spectrum", d.real, a, 1e-9)
    perm = ctx.rng.permutation(n)
    s2 = build(x[:, perm], fs, sp, cls, None if w is None else w[:, perm])
    # amplitude scalings are principal roots, whose sign is ambiguous on the
    # negative real axis: compare their squares
    power_like = sp["scaling"] in gen.POWER_SCALINGS or (sp["method"] == SM.FFT and sp["scaling"] in gen.FFT_SCALINGS)
    e = 1 if power_like else 2
    ctx.close("permutation", s2.get_csm()[1] ** e, c[:, perm][:, :, perm] ** e, 1e-9)
    # scaling of single channels
    g = ctx.rng.uniform(0.2, 4, n) * ctx.rng.choice([-1, 1], n)
    c3 = build(x * g, fs, sp, cls, w).get_csm()[1]
    G = g[:, None] * g[None, :]
    if power_like:
        ctx.close("channel_gains", c3, c * G, 1e-8, scale=np.abs(c * G).max())
    else:
        ctx.close("channel_gains_magnitude", np.abs(c3), np.abs(c) * np.sqrt(np.abs(G)), 1e-7)


def positive(ctx):
    x, fs, sp = make(ctx, True)
    sp["average"] = "mean"
    s = build(x, fs, sp)
    f, c = s.get_csm()
    ev = np.linalg.eigvalsh((c + np.conj(np.swapaxes(c, 1, 2))) / 2)
    tr = np.maximum(np.abs(ev).max(axis=1), 1e-300)
    ctx.ok("positive_semidefinite", np.all(ev.min(axis=1) >= -1e-9 * tr), f"{(ev.min(axis=1) / tr).min()}")
    d = np.einsum("fii->fi", c).real
    den = d[:, :, None] * d[:, None, :]
    m = den > 1e-20 * den.max()
    coh = np.abs(c) ** 2 / np.where(m, den, 1)
    ctx.ok("coherence_at_most_one", np.all(coh[m] <= 1 + 1e-7), f"{coh[m].max()}")


def welch_reference(ctx):
    fs = ctx.pick("fs", gen.FS)
    wl = 2 ** ctx.int("log2wl", 4, 9)
    ov = ctx.pick("overlap", [0.0, 50.0, 75.0])
    step = wl - int(ov / 100 * wl)
    nfr = ctx.int("frames", 2, 14)
    n = wl + step * (nfr - 1)
    ch = ctx.int("ch", 2, 4)
    x = gen.content(ctx, n, ch, fs, ("noise", "mixture")) @ ctx.normal(ch, ch)
    tail = int(np.ceil(n / step)) * step - step + wl - n
    xr = np.concatenate([x, np.zeros((max(tail, 0), ch))])
    win = ctx.pick("window", list(WINS))
    avg = ctx.pick("avg", ["mean", "median"])
    sc = ctx.pick("scaling", gen.POWER_SCALINGS)
    s = dsp.Signal(None, x.copy(), fs)
    s.set_spectrum_parameters(method=SM.WelchPeriodogram, window_length_samples=wl, window_type=win, overlap_percent=ov, detrend=False, average=avg, scaling=sc)
    f, c = s.get_csm()
    w = sig.get_window(WINS[win], wl)
    for i in range(ch):
        for j in range(ch):
            fr, p = sig.csd(xr[:, i], xr[:, j], fs, w, wl, wl - step, wl, False, True, "density" if sc == SS.PowerSpectralDensity else "spectrum", 0, avg)
            ctx.close("csd", c[:, j, i], p, 1e-8, scale=np.abs(c).max())
    ctx.close("frequencies", f, fr, 1e-12)


def fft_reference(ctx):
    x, fs, sp = make(ctx, nmin=50)
    sp["method"] = SM.FFT
    sp["scaling"] = ctx.pick("sc", gen.POWER_SCALINGS + gen.FFT_SCALINGS)
    s = build(x, fs, sp)
    f, c = s.get_csm()
    nfft = scipy.fft.next_fast_len(len(x), True) if sp["pad_to_fast_length"] else len(x)
    X = np.fft.rfft(x, nfft, axis=0)
    ref = np.conj(X)[:, None, :] * X[:, :, None]
    two = np.full(len(X), 2.0)
    two[0] = 1
    if nfft % 2 == 0:
        two[-1] = 1
    fac = {
        SS.FFTBackward: np.ones(len(X)), SS.FFTForward: np.ones(len(X)) / nfft**2, SS.FFTOrthogonal: np.ones(len(X)) / nfft,
        SS.PowerSpectrum: two / nfft**2, SS.PowerSpectralDensity: two / nfft / fs,
    }[sp["scaling"]]
    ctx.close("fft_csm", c, ref * fac[:, None, None], 1e-9)
    ctx.close("frequencies", f, np.fft.rfftfreq(nfft, 1 / fs), 1e-12)


def delay_phase(ctx):
    fs = ctx.pick("fs", gen.FS)
    wl = 2 ** ctx.int("log2wl", 7, 9)
    d = ctx.int("delay", 1, 5)
    n = wl * 40
    x = ctx.normal(n)
    y = np.concatenate([np.zeros(d), x[:-d]])
    for meth in SM:
        s = dsp.Signal(None, np.stack([x, y], 1), fs)
        s.set_spectrum_parameters(method=meth, window_length_samples=wl, scaling=SS.PowerSpectralDensity, pad_to_fast_length=False)
        f, c = s.get_csm()
        if meth == SM.FFT:
            # average neighbouring bins: edge effects only
            k = 64
            m = len(f) // k * k
            r = (c[:m, 1, 0] * np.exp(2j * np.pi * f[:m] * d / fs)).reshape(-1, k).mean(axis=1)
        else:
            r = (c[:, 1, 0] * np.exp(2j * np.pi * f * d / fs))[3:-3]
        ctx.ok(f"phase_{meth.name}", np.all(np.abs(np.angle(r)) < 0.35), f"{np.abs(np.angle(r)).max()}")
        ctx.ok(f"magnitude_{meth.name}", np.all(np.abs(np.abs(r) / np.abs(r).mean() - 1) < 0.9))


MORE = 8  # times the number of cases below in the quick tier
FAMILIES = [
    Family("structure", structure, 300, 5000),
    Family("positive", positive, 150, 2500),
    Family("welch_reference", welch_reference, 150, 2500),
    Family("fft_reference", fft_reference, 200, 3000),
    Family("delay_phase", delay_phase, 30, 400),
]
