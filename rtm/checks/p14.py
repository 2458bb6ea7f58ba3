"""P14: filter banks are the composition of their filters."""

import numpy as np
import scipy.signal as sg
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff
from rtm.checks.p10 import definition
from rtm.checks.p18 import settings

PROPERTY = "P14"
FM = dsp.FilterBankMode


def bank(ctx, fs, kmin=1, kmax=5, complex_p=0.1):
    k = ctx.int("k", kmin, kmax)
    fl, H, D = [], [], []
    for _ in range(k):
        f, h, d = definition(ctx, fs, complex_p)
        fl.append(f), H.append(h), D.append(d)
    return fl, H, D


def definite(f, x):
    """The filter's plain output for columns of x."""
    if hasattr(f, "sos"):
        return sg.sosfilt(f.sos, x, axis=0)
    return sg.lfilter(f.ba[0], f.ba[1], x, axis=0)


def zero_phase_ok(fl, n):
    return all(3 * (f.order + 2) * 2 < n for f in fl)


def modes(ctx):
    fs = ctx.pick("fs", gen.FS)
    fl, H, D = bank(ctx, fs, complex_p=0)
    build = ctx.pick("build", ["list", "add", "tuple", "insert"])
    if build == "list":
        fb = dsp.FilterBank(list(fl))
    elif build == "tuple":
        fb = dsp.FilterBank(tuple(fl))
    else:
        fb = dsp.FilterBank()
        if build == "add":
            for f in fl:
                fb.add_filter(f)
        else:
            for f in fl[::-1]:
                fb.add_filter(f, 0)
    ctx.ok("order_of_filters", len(fb) == len(fl) and all(a is b for a, b in zip(fb, fl)))
    ctx.equal("sampling_rate", fb.sampling_rate_hz, fs)
    n, c = ctx.int("n", 60, 400), ctx.int("ch", 1, 4)
    x = ctx.normal(n, c) * ctx.pick("level", [0.05, 0.3, 2.0])
    if ctx.flag("complex", 0.2):
        x = x + 1j * ctx.normal(n, c)
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    con = ctx.flag("constrain", 0.3)
    s = cls(None, x.copy(), fs, constrain_amplitude=con)
    base = gen.full(s)
    before = snap(s)
    zp = ctx.flag("zero_phase", 0.3)
    if zp and (not zero_phase_ok(fl, n) or con):
        zp = False
    if zp:
        each = [gen.full(f.filter_signal(s, zero_phase=True)) for f in fl]
    else:
        each = [definite(f, base) for f in fl]
    par = fb.filter_signal(s, FM.Parallel, zero_phase=zp)
    ctx.ok("parallel_type", type(par) is dsp.MultiBandSignal and par.number_of_bands == len(fl))
    for i, b in enumerate(par.bands):
        ctx.ok("parallel_band_type", type(b) is cls and settings(b) == settings(s))
        d = gen.full(b) / b.amplitude_scale_factor
        ctx.close("parallel", d, each[i], 1e-7, 1e-12, scale=np.abs(each[i]).max() + 1e-9)
    su = fb.filter_signal(s, FM.Summed, zero_phase=zp)
    e = np.sum(each, axis=0)
    ctx.ok("summed_type", type(su) is cls and settings(su) == settings(s))
    ctx.close("summed", gen.full(su) / su.amplitude_scale_factor, e, 1e-7, 1e-12, scale=max(np.abs(q).max() for q in each) + 1e-9)
    se = fb.filter_signal(s, FM.Sequential, zero_phase=zp)
    ctx.ok("sequential_type", type(se) is cls and settings(se) == settings(s))
    if not con:
        y = s
        z = base
        for f in fl:
            y = f.filter_signal(y, zero_phase=zp)
            if not zp:
                z = definite(f, z)
        z = gen.full(y) if zp else z
        ctx.close("sequential", gen.full(se), z, 1e-6, 1e-12, scale=np.abs(z).max() + 1e-9)
        if not zp:
            o = dsp.FilterBank(list(ctx.rng.permutation(np.array(fl, dtype=object))))
            ctx.close("sequential_any_order", gen.full(o.filter_signal(s, FM.Sequential)), z, 1e-5, 1e-10, scale=np.abs(z).max() + np.abs(base).max())
            ctx.close("summed_any_order", gen.full(o.filter_signal(s, FM.Summed)), e, 1e-7, 1e-11, scale=max(np.abs(q).max() for q in each))
    ctx.ok("input_unchanged", not diff(before, snap(s)))
    # The other modes again: nothing was remembered
    ctx.close("repeatable", gen.full(fb.filter_signal(s, FM.Summed, zero_phase=zp)), gen.full(su), 0, 0)


def responses(ctx):
    fs = ctx.pick("fs", gen.FS)
    fl, H, D = bank(ctx, fs, complex_p=0)
    fb = dsp.FilterBank(list(fl))
    f = np.sort(ctx.rng.uniform(0, fs / 2, ctx.int("nf", 1, 40)))
    w = 2 * np.pi * f / fs
    hs = np.stack([h(w) for h in H], axis=1)
    ctx.close("tf_parallel", fb.get_transfer_function(f, FM.Parallel), hs, 1e-6, 1e-9)
    ctx.close("tf_sequential", fb.get_transfer_function(f, FM.Sequential), hs.prod(1), 1e-6, 1e-9)
    ctx.close("tf_summed", fb.get_transfer_function(f, FM.Summed), hs.sum(1), 1e-6, 1e-9, scale=np.abs(hs).max())
    mo = max(g.order for g in fl)
    n = ctx.int("length", max(mo, 8), mo + 300)
    d = np.zeros((n, 1))
    d[0] = 1
    e = [definite(g, d) for g in fl]
    ir = fb.get_ir(n, FM.Parallel)
    ctx.ok("ir_bands", ir.number_of_bands == len(fl) and all(len(b) == n for b in ir.bands))
    for b, q in zip(ir.bands, e):
        ctx.close("ir_parallel", gen.full(b), q, 1e-7, 1e-12, scale=np.abs(q).max() + 1e-12)
        ctx.equal("ir_fs", b.sampling_rate_hz, fs)
    ctx.close("ir_summed", gen.full(fb.get_ir(n, FM.Summed)), sum(e), 1e-7, 1e-12, scale=max(np.abs(q).max() for q in e))
    q = d
    for g in fl:
        q = definite(g, q)
    ctx.close("ir_sequential", gen.full(fb.get_ir(n, FM.Sequential)), q, 1e-6, 1e-12, scale=np.abs(q).max() + 1e-9)
    if mo > 3:
        ctx.ok("short_length_extended", len(fb.get_ir(mo - 2, FM.Summed)) > mo)
    if zero_phase_ok(fl, n):
        z = fb.get_ir(n, FM.Parallel, zero_phase=True)
        dz = np.zeros((n, 1))
        dz[n // 2] = 1
        for g, b in zip(fl, z.bands):
            o = g.filter_signal(dsp.Signal(None, dz, fs), zero_phase=True)
            ctx.close("ir_zero_phase", gen.full(b), gen.full(o), 1e-7, 1e-12)


def multirate(ctx):
    k = ctx.int("k", 2, 4)
    rates = [ctx.pick("fs", gen.FS) for _ in range(k)]
    ds = [definition(ctx, r, 0) for r in rates]
    fl = [d[0] for d in ds]
    same = len(set(rates)) == 1
    if not same:
        ctx.raises("mixed_rates_refused", lambda: dsp.FilterBank(list(fl)))
    fb = dsp.FilterBank(list(fl), same_sampling_rate=False)
    ctx.ok("rates", list(fb.sampling_rate_hz) == rates)
    c = ctx.int("ch", 1, 3)
    ns = [ctx.int("n", 40, 200) for _ in rates]
    bands = [dsp.Signal(None, ctx.normal(n, c), r) for n, r in zip(ns, rates)]
    try:
        mb = dsp.MultiBandSignal(bands, same_sampling_rate=False)
    except Exception:
        return ctx.event("multiband_refused")
    before = snap(mb)
    act = ctx.flag("state", 0.3)
    if act:
        fbs = fb.copy()
        try:
            ref = [g.copy().filter_signal(b, activate_zi=True) for g, b in zip(fl, mb.bands)]
        except np.linalg.LinAlgError:
            return ctx.event("no_steady_state")
        o = fbs.filter_multiband_signal(mb, activate_zi=True)
    else:
        ref = [dsp.Signal(None, definite(g, b.time_data), b.sampling_rate_hz) for g, b in zip(fl, mb.bands)]
        o = fb.filter_multiband_signal(mb)
    ctx.equal("multirate_bands", o.number_of_bands, k)
    for a, b in zip(o.bands, ref):
        ctx.close("multirate", gen.full(a), gen.full(b), 1e-7, 1e-11)
        ctx.equal("multirate_fs", a.sampling_rate_hz, b.sampling_rate_hz)
    ctx.ok("multirate_input_unchanged", not diff(before, snap(mb)))
    n = 20 + max(g.order for g in fl)
    ir = fb.get_ir(n, FM.Parallel)
    for g, b in zip(fl, ir.bands):
        ctx.close("multirate_ir", gen.full(b), gen.full(g.get_ir(n)), 1e-7, 1e-11)
    ctx.raises("multirate_summed_refused", lambda: fb.get_ir(n, FM.Summed))
    ctx.raises("multirate_sequential_refused", lambda: fb.get_ir(n, FM.Sequential))
    ctx.raises("multirate_filter_refused", lambda: fb.filter_signal(bands[0], FM.Summed))
    if not same:
        ctx.raises("multirate_wrong_rates", lambda: fb.filter_multiband_signal(dsp.MultiBandSignal([bands[0].copy() for _ in rates], same_sampling_rate=False)))
    # Order of the rates follows the filters
    p = ctx.rng.permutation(k)
    fb2 = fb.copy()
    fb2.swap_filters(p)
    ctx.ok("rates_after_swap", list(fb2.sampling_rate_hz) == [rates[i] for i in p])
    r = ctx.int("r", 0, k - 1)
    fb2.remove_filter(r)
    ctx.ok("rates_after_remove", list(fb2.sampling_rate_hz) == [rates[i] for j, i in enumerate(p) if j != r])
    fb2.add_filter(fl[0].copy(), 0)
    ctx.ok("rates_after_add", list(fb2.sampling_rate_hz) == [rates[0]] + [rates[i] for j, i in enumerate(p) if j != r])


def multiband(ctx):
    """A multiband signal filtered band by band, same sampling rate."""
    fs = 48000
    fl, H, D = bank(ctx, fs)
    c, n = ctx.int("ch", 1, 3), ctx.int("n", 40, 200)
    mb = dsp.MultiBandSignal([dsp.Signal(None, ctx.normal(n, c), fs) for _ in fl])
    o = dsp.FilterBank(list(fl)).filter_multiband_signal(mb)
    ctx.equal("bands", o.number_of_bands, len(fl))
    for g, a, b in zip(fl, o.bands, mb.bands):
        ctx.close("band", gen.full(a), definite(g, b.time_data), 1e-7, 1e-11)


def container(ctx):
    """Histories of add, remove, swap against a list."""
    fs = 48000
    fb = dsp.FilterBank()
    model = []
    mk = lambda: definition(ctx, fs)[0]
    keep = None
    for _ in range(ctx.int("steps", 3, 14)):
        op = ctx.pick("op", ["add", "add", "insert", "remove", "remove_last", "swap", "set", "refused", "copy"])
        if op == "add":
            f = mk()
            fb.add_filter(f)
            model.append(f)
        elif op == "insert":
            f, i = mk(), ctx.int("i", 0, max(len(model), 0))
            fb.add_filter(f, i)
            model.insert(i, f)
        elif op == "remove" and model:
            i = ctx.int("i", 0, len(model) - 1)
            r = ctx.flag("return")
            o = fb.remove_filter(i, return_filter=r)
            g = model.pop(i)
            ctx.ok("removed_filter", o is (g if r else fb))
        elif op == "remove_last" and model:
            fb.remove_filter()
            model.pop()
        elif op == "swap" and len(model) > 1:
            p = ctx.rng.permutation(len(model))
            fb.swap_filters(ctx.pick("as", [list, np.array])(p))
            model = [model[i] for i in p]
        elif op == "set":
            model = [mk() for _ in range(ctx.int("k", 1, 4))]
            fb.filters = list(model)
        elif op == "copy":
            o = fb.copy()
            keep = (o, [snap(f) for f in model], len(model))
            o.add_filter(mk())
            o.remove_filter()
        elif op == "refused":
            other = dsp.Filter.from_ba([1.0, 0.5], [1.0], 44100)
            bad = [lambda: fb.remove_filter(len(model)), lambda: fb.remove_filter(-2)]
            if model:
                bad += [lambda: fb.add_filter(other), lambda: fb.add_filter("no"),
                        lambda: setattr(fb, "filters", [model[0], other]),
                        lambda: setattr(fb, "filters", [other, model[0]]),
                        lambda: fb.swap_filters([0] * (len(model) + 1)),
                        lambda: fb.swap_filters(list(range(1, len(model) + 1)))]
            if len(model) > 1:
                bad += [lambda: fb.swap_filters([0] * len(model)), lambda: fb.swap_filters([0])]
            ctx.raises("container_refuses", ctx.pick("bad", bad))
        ctx.ok("container", len(fb) == len(model) == fb.number_of_filters and all(a is b for a, b in zip(fb.filters, model)), op)
        if model:
            ctx.equal("container_rate", fb.sampling_rate_hz, fs)
        ctx.equal("container_metadata", fb.metadata["number_of_filters"], len(model))
    if keep:
        o, ss, k = keep
        ctx.ok("copy_independent", len(o) == k and not any(diff(a, snap(f)) for a, f in zip(ss, o.filters)))


def merging(ctx):
    """merge_filters and append_filterbanks."""
    fs = 48000
    kind = ctx.pick("kind", ["fir", "iir", "any"])
    n = ctx.int("nf", 2, 5)
    fl, H = [], []
    while len(fl) < n:
        f, h, _ = definition(ctx, fs, 0.1 if kind == "fir" else 0)
        if kind == "any" or f.is_fir == (kind == "fir"):
            fl.append(f), H.append(h)
    before = [snap(f) for f in fl]
    w = ctx.rng.uniform(0, np.pi, 30)
    mixed = len({f.is_fir for f in fl}) > 1
    arg = dsp.FilterBank(list(fl)) if ctx.flag("as_bank") else list(fl)
    if mixed:
        ctx.raises("mixed_refused", lambda: dsp.merge_filters(arg))
    else:
        m = dsp.merge_filters(arg)
        e = np.prod([h(w) for h in H], axis=0)
        ctx.close("merged", m.get_transfer_function(w * fs / 2 / np.pi), e, 1e-6, 1e-9)
        ctx.ok("merged_kind", m.is_fir == fl[0].is_fir and m.sampling_rate_hz == fs)
        x = dsp.Signal(None, ctx.normal(200, 2), fs)
        y = x.time_data
        for f in fl:
            y = definite(f, y)
        if np.iscomplexobj(y) or not any(np.iscomplexobj(getattr(f, "ba", [0])[0]) for f in fl):
            ctx.close("merged_filtering", gen.full(m.filter_signal(x)), y, 1e-6, 1e-9)
    ctx.ok("inputs_unchanged", not any(diff(a, snap(f)) for a, f in zip(before, fl)))
    ctx.raises("one_filter_refused", lambda: dsp.merge_filters(fl[:1]))
    ctx.raises("rates_refused", lambda: dsp.merge_filters([fl[0], dsp.Filter.from_ba([1.0, 2.0], [1.0], 44100)]))
    k = ctx.int("cut", 1, n - 1)
    parts = [dsp.FilterBank(fl[:k]), dsp.FilterBank(fl[k:])]
    o = dsp.append_filterbanks(parts)
    ctx.ok("appended", len(o) == n and not any(diff(a, snap(f)) for a, f in zip(before, o.filters)))
    ctx.ok("append_inputs", len(parts[0]) == k and len(parts[1]) == n - k)
    ctx.ok("append_copies", not any(a is b for a in o.filters for b in fl))
    ctx.raises("append_rates", lambda: dsp.append_filterbanks([parts[0], dsp.FilterBank([dsp.Filter.from_ba([1.0, 2.0], [1.0], 44100)])]))
    ctx.raises("append_one", lambda: dsp.append_filterbanks(parts[:1]))


def refusals(ctx):
    fs = 48000
    fl, H, D = bank(ctx, fs, 1, 3, 0)
    fb = dsp.FilterBank(list(fl))
    s = dsp.Signal(None, ctx.normal(80, 2), 44100)
    ok = dsp.Signal(None, ctx.normal(400, 2), fs)
    before = [snap(f) for f in fl], snap(ok)
    ctx.raises("rate_refused", lambda: fb.filter_signal(s, ctx.pick("m", list(FM))))
    ctx.raises("mode_refused", lambda: fb.filter_signal(ok, "parallel"))
    ctx.raises("tf_mode_refused", lambda: fb.get_transfer_function(np.array([100.0]), "summed"))
    ctx.raises("zero_phase_with_state", lambda: fb.filter_signal(ok, FM.Parallel, activate_zi=True, zero_phase=True))
    ctx.raises("multiband_refused", lambda: fb.filter_signal(dsp.MultiBandSignal([ok.copy()]), FM.Parallel))
    ctx.ok("unchanged", not any(diff(a, snap(f)) for a, f in zip(before[0], fl)) and not diff(before[1], snap(ok)))


MORE = 5  # times the number of cases below in the quick tier
FAMILIES = [
    Family("modes", modes, 400, 6000),
    Family("responses", responses, 250, 4000),
    Family("multirate", multirate, 120, 1500),
    Family("multiband", multiband, 80, 800),
    Family("container", container, 200, 3000),
    Family("merging", merging, 250, 3000),
    Family("refusals", refusals, 60, 300),
]
