"""P09: spectrogram and its inverse."""

import numpy as np
import scipy.signal as sig
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.gen import SS, SM
from rtm.checks.p07 import WINS

PROPERTY = "P09"
ASSUMPTIONS = [
    "The reported time vector is only required to be increasing, to have one entry per frame and to lie within one and a half windows of the frame's true position; its end-inclusive spacing is a documented approximation.",
    "Inversion is judged where the squared-window envelope of the frames permits it.",
]


def params(ctx, n=4096, complex_only=False):
    wl = 2 ** ctx.int("log2wl", 4, 10)
    ov = ctx.pick("overlap", [0.0, 10.0, 25.0, 30.0, 50.0, 60.0, 66.6, 75.0, 87.5, 90.0])
    fft = ctx.pick("fft", [None, wl, 2 * wl, wl + 7, int(1.5 * wl) + 1])
    return dict(
        window_length_samples=wl,
        window_type=ctx.pick("window", list(WINS)),
        overlap_percent=ov,
        fft_length_samples=fft,
        detrend=ctx.flag("detrend", 0.3),
        padding=ctx.flag("padding"),
        scaling=ctx.pick("scaling", gen.FFT_SCALINGS + gen.AMPLITUDE_SCALINGS if complex_only else gen.ALL_SCALINGS),
    )


def reference(x, fs, p):
    wl = p["window_length_samples"]
    nov = int(p["overlap_percent"] / 100 * wl + 0.5)
    step = wl - nov
    nfft = p["fft_length_samples"] or wl
    w = sig.get_window(WINS[p["window_type"]], wl)
    if p["padding"]:
        x = np.concatenate([np.zeros((nov, x.shape[1])), x, np.zeros((nov, x.shape[1]))])
    nfr = int(np.ceil(len(x) / step))
    xx = np.concatenate([x, np.zeros((wl, x.shape[1]))])
    out = []
    for k in range(nfr):
        fr = xx[k * step : k * step + wl] * w[:, None]
        if p["detrend"]:
            fr = fr - fr.mean(axis=0)
        out.append(np.fft.rfft(fr, nfft, axis=0))
    X = np.stack(out, axis=1)
    sc = p["scaling"]
    if sc == SS.FFTForward:
        X = X / nfft
    elif sc == SS.FFTOrthogonal:
        X = X / np.sqrt(nfft)
    elif sc != SS.FFTBackward:
        two = np.full(X.shape[0], 2.0)
        two[0] = 1
        if nfft % 2 == 0:
            two[-1] = 1
        norm = w.sum() if sc in (SS.AmplitudeSpectrum, SS.PowerSpectrum) else np.sqrt((w**2).sum() * fs)
        X = X * np.sqrt(two)[:, None, None] / norm
        if sc in gen.POWER_SCALINGS:
            X = np.abs(X) ** 2
    return X, step, nov, nfft


def forward(ctx):
    x, fs = gen.array(ctx, 600, 5000, (1, 3))
    p = params(ctx)
    s = dsp.Signal(None, x.copy(), fs)
    s.set_spectrogram_parameters(**p)
    t, f, st = s.get_spectrogram()
    ref, step, nov, nfft = reference(x, fs, p)
    ctx.close("values", st, ref, 1e-9)
    ctx.close("frequencies", f, np.fft.rfftfreq(nfft, 1 / fs), 1e-12)
    ctx.ok("time_length", len(t) == st.shape[1], f"{len(t)} {st.shape}")
    ctx.ok("time_increasing", np.all(np.diff(t) > 0))
    true = np.arange(st.shape[1]) * step / fs
    ctx.ok("time_position", np.all(np.abs(t - true) <= 1.5 * p["window_length_samples"] / fs), f"{np.abs(t - true).max() * fs} samples, wl {p['window_length_samples']}")


def linear(ctx):
    x, fs = gen.array(ctx, 600, 4000, (1, 3))
    y = gen.content(ctx, x.shape[0], x.shape[1], fs)
    p = params(ctx, complex_only=True)
    a, b = ctx.uniform("a", -3, 3), ctx.uniform("b", -3, 3)

    def st(z):
        s = dsp.Signal(None, z, fs)
        s.set_spectrogram_parameters(**p)
        return s.get_spectrogram()[2]

    ctx.close("linear", st(a * x + b * y), a * st(x) + b * st(y), 1e-9)


def inverse(ctx):
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    x, fs = gen.array(ctx, 700, 5000, (1, 3))
    p = params(ctx, complex_only=True)
    p["detrend"] = False
    ctx.need(len(x) > 2 * p["window_length_samples"])
    s = cls(None, x.copy(), fs, constrain_amplitude=False)
    s.set_spectrogram_parameters(**p)
    st = s.get_spectrogram()[2]
    st0 = st.copy()
    how = ctx.pick("how", ["signal", "dict", "args"])
    if how == "signal":
        r = dsp.transforms.istft(st, original_signal=s)
        ctx.equal("length", r.length_samples, len(x))
        ctx.ok("type", type(r) is cls)
    elif how == "dict":
        r = dsp.transforms.istft(st, parameters=dict(p), sampling_rate_hz=fs)
    else:
        q = {k: v for k, v in p.items() if k != "detrend"}
        r = dsp.transforms.istft(st, sampling_rate_hz=fs, **q)
    ctx.equal("stft_unchanged", st, st0)
    ctx.equal("fs", r.sampling_rate_hz, fs)
    # where is the signal recoverable?
    wl = p["window_length_samples"]
    w = sig.get_window(WINS[p["window_type"]], wl)
    _, step, nov, nfft = reference(x[:, :1], fs, p)
    pad = nov if p["padding"] else 0
    nfr = st.shape[1]
    env = np.zeros((nfr - 1) * step + wl)
    for k in range(nfr):
        env[k * step : k * step + wl] += w**2
    lo = pad if p["padding"] else wl
    env = env[lo:]
    off = lo - pad
    n = min(len(x) - off, len(env), r.length_samples - off)
    if not p["padding"]:
        n = min(n, len(x) - off - wl)
    ctx.need(n > 10)
    good = env[:n] > 2e-4
    ctx.need(good.mean() > 0.1)
    ctx.event("samples_recovered", int(good.sum()) * x.shape[1])
    ctx.close("samples", r.time_data[off : off + n][good], x[off : off + n][good], 1e-7, scale=np.abs(x).max())


def impulse_frame(ctx):
    """An impulse shows up exactly in the frames that contain it."""
    fs = 48000
    p = params(ctx)
    p["window_type"] = ctx.pick("w2", [dsp.Window.Boxcar, dsp.Window.Hamming])
    p["detrend"] = False
    wl = p["window_length_samples"]
    n = ctx.int("len", 3 * wl, 8 * wl)
    pos = ctx.int("pos", 0, n - 1)
    x = np.zeros((n, 2))
    x[pos, 1] = 1.0
    s = dsp.Signal(None, x, fs)
    s.set_spectrogram_parameters(**p)
    t, f, st = s.get_spectrogram()
    nov = int(p["overlap_percent"] / 100 * wl + 0.5)
    step = wl - nov
    q = pos + (nov if p["padding"] else 0)
    k = np.arange(st.shape[1])
    expect = (k * step <= q) & (q < k * step + wl)
    ctx.equal("frames", np.abs(st[:, :, 1]).max(axis=0) > 0, expect)
    ctx.ok("silent_channel", np.all(st[:, :, 0] == 0))


MORE = 8  # times the number of cases below in the quick tier
FAMILIES = [
    Family("forward", forward, 300, 5000),
    Family("linear", linear, 100, 1500),
    Family("inverse", inverse, 400, 6000),
    Family("impulse_frame", impulse_frame, 100, 1500),
]
