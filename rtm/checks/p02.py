"""P02: what is read from an object always reflects its present data and
settings, whatever was read, set or plotted before (cache transparency)."""

import numpy as np
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.gen import SS, SM

PROPERTY = "P02"
RULE = (
    "A case is a random history (6-25 steps) of reads, setter calls, channel operations and plots on one object; "
    "after every step the object is compared with a new object built from the modelled data and settings. "
    "Non-trivial: at least one such comparison happened; distinct: different drawn histories."
)
ASSUMPTIONS = [
    "Data are changed through the public setters and methods; writing into the array handed out by time_data is not a history the property covers.",
]


class Model:
    """Expected data and settings."""

    def __init__(self, x, fs, cls, sp, sg):
        self.x, self.fs, self.cls, self.sp, self.sg = x, fs, cls, sp, sg
        self.window = None

    def fresh(self):
        s = self.cls(None, self.x.copy(), self.fs, constrain_amplitude=False, activate_cache=False)
        s.set_spectrum_parameters(**self.sp)
        s.set_spectrogram_parameters(**self.sg)
        if self.window is not None:
            s.set_window(self.window.copy())
        return s


def compare(ctx, s, m, what, tag):
    f = m.fresh()
    if "spectrum" in what:
        a, b = s.get_spectrum(), f.get_spectrum()
        ctx.close(f"spectrum_f", a[0], b[0], 1e-12, msg=tag)
        ctx.close(f"spectrum", a[1], b[1], 1e-10, msg=tag)
    if "csm" in what and m.x.shape[1] > 1:
        a, b = s.get_csm(), f.get_csm()
        ctx.close("csm_f", a[0], b[0], 1e-12, msg=tag)
        ctx.close("csm", a[1], b[1], 1e-10, msg=tag)
    if "spectrogram" in what:
        a, b = s.get_spectrogram(), f.get_spectrogram()
        ctx.close("spectrogram_t", a[0], b[0], 1e-12, msg=tag)
        ctx.close("spectrogram_f", a[1], b[1], 1e-12, msg=tag)
        ctx.close("spectrogram", a[2], b[2], 1e-10, msg=tag)
    if "basic" in what:
        ctx.equal("time_data", s.time_data, m.x, tag)
        ctx.equal("length", (s.length_samples, len(s), s.number_of_channels), (m.x.shape[0], m.x.shape[0], m.x.shape[1]), tag)
        ctx.close("time_vector", s.time_vector_s, f.time_vector_s, 1e-12, msg=tag)
        ctx.ok("time_vector_len", len(s.time_vector_s) == m.x.shape[0], tag)
        md = s.metadata
        ctx.equal("metadata", (md["sampling_rate_hz"], md["number_of_channels"], md["signal_length_samples"]), (m.fs, m.x.shape[1], m.x.shape[0]), tag)
        ctx.ok("metadata_text", s.metadata_str == f.metadata_str == str(s) and f"{m.x.shape[0]}" in str(s) and f"{m.fs}" in str(s), tag)
        ctx.equal("metadata_same", {k: v for k, v in md.items()}, f.metadata, tag)
        ctx.ok("settings", s.spectrum_method == m.sp["method"] and s.spectrum_scaling == m.sp["scaling"] and s.spectrum_smoothing == m.sp["smoothing"], f"{tag}: method/scaling/smoothing read back {s.spectrum_method, s.spectrum_scaling, s.spectrum_smoothing} instead of {m.sp}")


READS = [("spectrum",), ("csm",), ("spectrogram",), ("spectrum", "csm"), ("spectrogram", "spectrum"), ("basic",)]


def history(ctx, cls):
    fs = ctx.pick("fs", [8000, 44100, 48000])
    n = ctx.int("n", 700, 2000)
    ch = ctx.int("ch", 1, 3)
    x = gen.content(ctx, n, ch, fs)
    m = Model(x.copy(), fs, cls, gen.random_spectrum_params(ctx, n), gen.random_spectrogram_params(ctx, n))
    s = cls(None, x.copy(), fs, constrain_amplitude=False, activate_cache=ctx.flag("cache", 0.85))
    s.set_spectrum_parameters(**m.sp)
    s.set_spectrogram_parameters(**m.sg)
    plots_done = 0
    hist = []
    ops = [
        "read", "read", "read", "force", "mutate_returned", "time_data", "time_data_len", "set_sp", "set_sp_one",
        "set_sg", "set_sg_one", "scaling", "method", "smoothing", "add", "remove", "swap", "cache", "fs", "plot",
        "same_params", "copy", "derived", "slice_write",
    ]
    if cls is dsp.ImpulseResponse:
        ops += ["window", "window_clear"]
    for step in range(ctx.int("steps", 6, 25)):
        op = ops[int(ctx.rng.integers(len(ops)))]
        hist.append(op)
        tag = ">".join(hist[-8:])
        ctx.event("op:" + op)
        r = ctx.rng
        if op == "read":
            pass
        elif op == "force":
            s.get_spectrum(force_computation=True)
            s.get_spectrogram(force_computation=True)
            if m.x.shape[1] > 1:
                s.get_csm(force_computation=True)
        elif op == "mutate_returned":
            for g in [s.get_spectrum(), s.get_spectrogram()] + ([s.get_csm()] if m.x.shape[1] > 1 else []):
                for arr in g:
                    arr[...] = 7.0
        elif op == "time_data":
            m.x = gen.content(ctx, m.x.shape[0], int(r.integers(1, 4)), m.fs)
            m.window = None
            s.time_data = m.x.copy()
        elif op == "time_data_len":
            m.x = gen.content(ctx, int(r.integers(700, 2000)), m.x.shape[1], m.fs)
            m.window = None
            s.time_data = m.x.copy()
        elif op == "set_sp":
            m.sp = gen.random_spectrum_params(ctx, 700)
            s.set_spectrum_parameters(**m.sp)
        elif op == "set_sp_one":
            new = gen.random_spectrum_params(ctx, 700)
            k = sorted(new)[int(r.integers(len(new)))]
            m.sp = m.sp | {k: new[k]}
            hist[-1] += ":" + k
            s.set_spectrum_parameters(**m.sp)
        elif op == "same_params":
            s.set_spectrum_parameters(**m.sp)
            s.set_spectrogram_parameters(**m.sg)
        elif op == "set_sg":
            m.sg = gen.random_spectrogram_params(ctx, 700)
            s.set_spectrogram_parameters(**m.sg)
        elif op == "set_sg_one":
            new = gen.random_spectrogram_params(ctx, 700)
            k = sorted(new)[int(r.integers(len(new)))]
            m.sg = m.sg | {k: new[k]}
            if m.sg["fft_length_samples"] is not None and m.sg["fft_length_samples"] < m.sg["window_length_samples"]:
                m.sg["fft_length_samples"] = None
            hist[-1] += ":" + k
            s.set_spectrogram_parameters(**m.sg)
        elif op == "scaling":
            m.sp = m.sp | {"scaling": ctx.pick("ns", gen.ALL_SCALINGS)}
            s.spectrum_scaling = m.sp["scaling"]
        elif op == "method":
            m.sp = m.sp | {"method": ctx.pick("nm", list(SM))}
            s.spectrum_method = m.sp["method"]
        elif op == "smoothing":
            m.sp = m.sp | {"smoothing": ctx.pick("nsm", [0, 1, 3, 12])}
            s.spectrum_smoothing = m.sp["smoothing"]
        elif op == "add":
            if m.x.shape[1] < 4:
                ll = int(r.choice([m.x.shape[0], m.x.shape[0] - 50, m.x.shape[0] + 60]))
                y = gen.content(ctx, ll, 1, m.fs)
                s.add_channel(None, y.copy(), m.fs)
                yy = np.zeros((m.x.shape[0], 1))
                k = min(ll, m.x.shape[0])
                yy[:k] = y[:k]
                m.x = np.concatenate([m.x, yy], axis=1)
                m.window = None
        elif op == "remove":
            if m.x.shape[1] > 1:
                c = int(r.integers(-1, m.x.shape[1]))
                s.remove_channel(c)
                m.x = np.delete(m.x, c if c >= 0 else m.x.shape[1] - 1, axis=1)
                m.window = None
        elif op == "swap":
            p = r.permutation(m.x.shape[1])
            s.swap_channels(p)
            m.x = m.x[:, p]
            m.window = None
        elif op == "cache":
            s.activate_cache = not s.activate_cache
        elif op == "fs":
            m.fs = int(r.choice([8000, 16000, 44100, 48000]))
            s.sampling_rate_hz = m.fs
        elif op == "window":
            m.window = np.abs(ctx.normal(*m.x.shape)) + 0.1
            s.set_window(m.window.copy())
        elif op == "window_clear":
            m.window = None
            s.clear_time_window()
        elif op == "copy":
            s2 = s.copy()
            ctx.ok("copy_type", type(s2) is cls)
            s = s2
        elif op == "derived":
            # objects derived from this one start with their own state
            c = [int(r.integers(m.x.shape[1]))]
            d = s.get_channels(c)
            md = Model(m.x[:, c], m.fs, cls, m.sp | ({"method": SM.FFT} if cls is dsp.ImpulseResponse else {}), m.sg)
            compare(ctx, d, md, ("spectrum", "spectrogram"), tag + " (derived)")
            d.time_data = d.time_data * 0.0 + 0.01
        elif op == "slice_write":
            # documented: assigning through the setter after editing a copy
            y = s.time_data.copy()
            y[: len(y) // 2] *= 0.5
            s.time_data = y
            m.x = y.copy()
            m.window = None
        elif op == "plot" and plots_done < 3:
            plots_done += 1
            kinds = ["magnitude", "group_delay", "spectrogram", "time", "spl"]
            if m.sp["method"] == SM.FFT:
                kinds += ["phase"] * (m.sp["scaling"].is_amplitude_scaling())
                if cls is dsp.ImpulseResponse and m.sp["scaling"].is_amplitude_scaling():
                    kinds += ["bode"]
            if m.x.shape[1] > 1:
                kinds.append("csm")
            k = kinds[int(r.integers(len(kinds)))]
            hist[-1] += ":" + k
            tag = ">".join(hist[-8:])
            ctx.event("plot:" + k)
            if k == "magnitude":
                s.plot_magnitude(smoothing=int(r.choice([0, 3])))
            elif k == "group_delay":
                s.plot_group_delay()
            elif k == "spectrogram":
                s.plot_spectrogram()
            elif k == "time":
                s.plot_time()
            elif k == "spl":
                s.plot_spl()
            elif k == "phase":
                s.plot_phase()
            elif k == "bode":
                s.plot_bode(smoothing=int(r.choice([0, 3])))
            elif k == "csm":
                s.plot_csm()
            import matplotlib.pyplot as plt

            plt.close("all")
        what = READS[int(r.integers(len(READS)))]
        compare(ctx, s, m, what, tag)
    compare(ctx, s, m, ("spectrum", "csm", "spectrogram", "basic"), "end:" + ">".join(hist[-8:]))


def signal_history(ctx):
    history(ctx, dsp.Signal)


def ir_history(ctx):
    history(ctx, dsp.ImpulseResponse)


def window_parameter_shared(ctx):
    """Settings of one signal are not changed by choosing a window for
    another one."""
    fs = 48000
    x = gen.content(ctx, 2000, 1, fs, ("noise",))
    a, b = dsp.Signal(None, x.copy(), fs), dsp.Signal(None, x.copy(), fs)
    wa = dsp.Window.Kaiser.with_extra_parameter(2.0)
    kw = dict(window_length_samples=256, scaling=SS.PowerSpectralDensity)
    a.set_spectrum_parameters(window_type=wa, **kw)
    before = a.get_spectrum()[1].copy()
    b.set_spectrum_parameters(window_type=dsp.Window.Kaiser.with_extra_parameter(12.0), **kw)
    ctx.close("other_signal_unchanged", a.get_spectrum()[1], before, 1e-12)


FAMILIES = [
    Family("window_parameter_shared", window_parameter_shared, 1, 1),
    Family("signal_history", signal_history, 350, 6000),
    Family("ir_history", ir_history, 250, 4000),
]
