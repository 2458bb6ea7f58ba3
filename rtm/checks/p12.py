"""P12: block-wise filtering equals filtering at once."""

import numpy as np
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.checks.p10 import definition

PROPERTY = "P12"
FM = dsp.FilterBankMode


def blocks(ctx, n, c):
    """Random partition of n samples into blocks that may be shorter than the
    filters' memory.  A Signal takes the longer axis of its data as time, so
    blocks have at least as many samples as channels."""
    kind = ctx.pick("blocks", ["equal", "random", "tiny", "two"])
    if kind == "equal":
        b = ctx.int("block", 1, max(n // 2, 1))
        e = list(range(b, n, b))
    elif kind == "two":
        e = [ctx.int("cut", 1, n - 1)]
    elif kind == "tiny":
        e = list(range(1, min(n, 16))) + ([n // 2] if n // 2 > 12 else [])
    else:
        e = sorted(set(ctx.rng.integers(1, n, ctx.int("cuts", 1, 8)).tolist()))
    keep = []
    for v in e:
        if v - (keep[-1] if keep else 0) >= c and n - v >= c:
            keep.append(v)
    e = [0] + keep + [n]
    ctx.event("blocks", len(e) - 1)
    return list(zip(e[:-1], e[1:]))


def state(f):
    """Public filter state as arrays."""
    if not hasattr(f, "zi"):
        return None
    return [np.array(z) for z in f.zi]


def same_state(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def single(ctx):
    fs = ctx.pick("fs", gen.FS)
    f, H, d = definition(ctx, fs)
    n, c = ctx.int("n", 20, 250), ctx.int("ch", 1, 4)
    x = ctx.normal(n, c) * 0.3
    cx = ctx.flag("complex_signal", 0.2)
    if cx:
        x = x + 0.3j * ctx.normal(n, c)
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    mk = lambda q: cls(None, q.copy(), fs, constrain_amplitude=False)
    start = ctx.pick("start", ["automatic", "initialized", "other_channels"])
    new = lambda: f.copy()
    g, h = new(), new()
    if start == "initialized":
        g.initialize_zi(c)
    elif start == "other_channels":
        g.initialize_zi(c + 1 if ctx.flag("more") else max(c - 1, 1))
        g = g if c != len(g.zi) else new()
    try:
        whole = h.filter_signal(mk(x), activate_zi=True)
    except np.linalg.LinAlgError:
        return ctx.event("no_steady_state")
    e = gen.full(whole)
    parts = []
    for i, (lo, hi) in enumerate(blocks(ctx, n, c)):
        if ctx.flag("interleave", 0.3):
            # Filtering without states in between does not change them
            z = state(g)
            g.filter_signal(mk(ctx.normal(30, c)))
            if ctx.flag("zp", 0.3) and g.order < 5:
                g.filter_signal(mk(ctx.normal(60, c)), zero_phase=True)
            g.get_ir(20 + g.order)
            g.get_transfer_function(np.array([100.0]))
            ctx.ok("state_untouched", same_state(z, state(g)))
        o = g.filter_signal(mk(x[lo:hi]), activate_zi=True)
        ctx.equal("block_length", len(o), hi - lo)
        parts.append(gen.full(o))
    ctx.close("blocks_equal_whole", np.concatenate(parts), e, 1e-7, 1e-10)
    ctx.ok("states_per_channel", len(g.zi) == c)
    # The state enters linearly: removing its free response leaves plain filtering
    z0 = new().filter_signal(mk(np.zeros((n, c))), activate_zi=True)
    ctx.close("state_plus_plain", e - gen.full(z0), gen.full(new().filter_signal(mk(x))), 1e-7, 1e-10, scale=np.abs(e).max() + np.abs(gen.full(z0)).max())
    # Resetting
    g.initialize_zi(c)
    k = ctx.int("k", c, n)
    ctx.close("reset_equals_new", gen.full(g.filter_signal(mk(x[:k]), activate_zi=True)), e[:k], 1e-9, 1e-11)
    # Channels have separate states
    if c > 1:
        i = ctx.int("i", 0, c - 1)
        p = [gen.full(new_i.filter_signal(mk(x[lo:hi, [i]]), activate_zi=True))
             for new_i in [new()] for lo, hi in blocks(ctx, n, 1)]
        ctx.close("channel_alone", np.concatenate(p), e[:, [i]], 1e-7, 1e-10)
    # Changing the number of channels starts again
    q = g.filter_signal(mk(np.concatenate([x, x], axis=1)), activate_zi=True)
    ctx.close("other_channel_number", gen.full(q), np.concatenate([e, e], axis=1), 1e-7, 1e-10)


def selected(ctx):
    """Only the selected channels advance."""
    fs = 48000
    f, H, d = definition(ctx, fs)
    n, c = ctx.int("n", 20, 120), ctx.int("ch", 2, 4)
    x = ctx.normal(n, c) * 0.3
    mk = lambda q: dsp.Signal(None, q.copy(), fs)
    try:
        e = gen.full(f.copy().filter_signal(mk(x), activate_zi=True))
    except np.linalg.LinAlgError:
        return
    g = f.copy()
    sel = list(ctx.rng.permutation(c)[: ctx.int("nsel", 1, c)])
    rest = [i for i in range(c) if i not in sel]
    parts = []
    for lo, hi in blocks(ctx, n, c):
        o = gen.full(g.filter_signal(mk(x[lo:hi]), sel, activate_zi=True))
        ctx.equal("bypassed_channels", o[:, rest], x[lo:hi, rest].astype(o.dtype))
        parts.append(o[:, sel])
    ctx.close("selected_blocks", np.concatenate(parts), e[:, sel], 1e-7, 1e-10)


def bank(ctx):
    fs = ctx.pick("fs", gen.FS)
    nf = ctx.int("filters", 1, 4)
    fb = dsp.FilterBank([definition(ctx, fs, 0.0)[0] for _ in range(nf)])
    n, c = ctx.int("n", 20, 250), ctx.int("ch", 1, 3)
    x = ctx.normal(n, c) * 0.3
    mode = ctx.pick("mode", list(FM))
    mk = lambda q: dsp.Signal(None, q.copy(), fs)

    def data(o):
        if isinstance(o, dsp.MultiBandSignal):
            return np.stack([gen.full(b) for b in o.bands], axis=-1)
        return gen.full(o)

    multi = ctx.flag("multiband_input", 0.2)
    if multi:
        xs = [ctx.normal(n, c) for _ in range(nf)]
        run = lambda b, lo, hi: b.filter_multiband_signal(
            dsp.MultiBandSignal([mk(q[lo:hi]) for q in xs], True), activate_zi=True)
    else:
        run = lambda b, lo, hi: b.filter_signal(mk(x[lo:hi]), mode, activate_zi=True)
    try:
        e = data(run(fb.copy(), 0, n))
    except np.linalg.LinAlgError:
        return
    g = fb.copy()
    if ctx.flag("init"):
        g.initialize_zi(ctx.int("init_channels", 1, 4))
    parts = []
    for lo, hi in blocks(ctx, n, c):
        parts.append(data(run(g, lo, hi)))
        if ctx.flag("interleave", 0.3):
            z = [state(q) for q in g.filters]
            g.filter_signal(mk(ctx.normal(40, c)), ctx.pick("m2", list(FM)))
            g.get_ir(50, FM.Summed)
            ctx.ok("bank_state_untouched", all(same_state(p, state(q)) for p, q in zip(z, g.filters)))
    sc = np.abs(e).max()
    ctx.close("bank_blocks_equal_whole", np.concatenate(parts), e, 1e-7, 1e-10)
    g.initialize_zi(c)
    ctx.close("bank_reset", data(run(g, 0, n)), e, 1e-7, 1e-10)
    z0 = fb.copy()
    if not multi and mode != FM.Sequential:
        zr = data(z0.filter_signal(mk(np.zeros((n, c))), mode, activate_zi=True))
        pl = data(fb.copy().filter_signal(mk(x), mode))
        ctx.close("bank_state_plus_plain", e - zr, pl, 1e-7, 1e-10, scale=sc + np.abs(zr).max())


def linkwitz(ctx):
    fs = ctx.pick("fs", [16000, 44100, 48000])
    k = ctx.int("crossovers", 1, 4)
    fr = np.sort(ctx.rng.uniform(0.02, 0.4, k)) * fs
    order = [ctx.pick("order", [1, 2, 3, 4, 8]) for _ in range(k)]
    mk_fb = lambda: dsp.filterbanks.linkwitz_riley_crossovers(fr.copy(), list(order), fs)
    n, c = ctx.int("n", 20, 250), ctx.int("ch", 1, 3)
    x = ctx.normal(n, c) * 0.2
    if ctx.flag("complex_signal", 0.2):
        x = x + 0.2j * ctx.normal(n, c)
    mode = ctx.pick("mode", [FM.Parallel, FM.Summed])
    mk = lambda q: dsp.Signal(None, q.copy(), fs)
    data = lambda o: np.stack([gen.full(b) for b in o.bands], axis=-1) if isinstance(o, dsp.MultiBandSignal) else gen.full(o)
    e = data(mk_fb().filter_signal(mk(x), mode, activate_zi=True))
    g = mk_fb()
    parts = []
    for lo, hi in blocks(ctx, n, c):
        parts.append(data(g.filter_signal(mk(x[lo:hi]), mode, activate_zi=True)))
        if ctx.flag("interleave", 0.3):
            g.filter_signal(mk(ctx.normal(40, c)), mode)
            g.get_ir(64, FM.Parallel)
    ctx.close("linkwitz_blocks_equal_whole", np.concatenate(parts), e, 1e-7, 1e-10)
    z = data(mk_fb().filter_signal(mk(np.zeros((n, c))), mode, activate_zi=True))
    pl = data(mk_fb().filter_signal(mk(x), mode))
    ctx.close("linkwitz_state_plus_plain", e - z, pl, 1e-7, 1e-10, scale=np.abs(e).max() + np.abs(z).max())
    g.initialize_zi(c)
    ctx.close("linkwitz_reset", data(g.filter_signal(mk(x), mode, activate_zi=True)), e, 1e-7, 1e-10)
    i = ctx.int("i", 0, c - 1)
    ctx.close("linkwitz_channel_alone", data(mk_fb().filter_signal(mk(x[:, [i]]), mode, activate_zi=True)), e[:, [i]], 1e-7, 1e-10)


def crossover(ctx):
    fs = 48000
    lp = dsp.Filter.fir_filter(ctx.int("order", 10, 40), fs / 4, dsp.FilterPassType.Lowpass, fs)
    mk_fb = lambda: dsp.filterbanks.qmf_crossover(lp.copy())
    n, c = ctx.int("n", 20, 200), ctx.int("ch", 1, 3)
    x = ctx.normal(n, c) * 0.2
    mode = ctx.pick("mode", list(FM))
    mk = lambda q: dsp.Signal(None, q.copy(), fs)
    data = lambda o: np.stack([gen.full(b) for b in o.bands], axis=-1) if isinstance(o, dsp.MultiBandSignal) else gen.full(o)
    e = data(mk_fb().filter_signal(mk(x), mode, activate_zi=True))
    g = mk_fb()
    parts = [data(g.filter_signal(mk(x[lo:hi]), mode, activate_zi=True)) for lo, hi in blocks(ctx, n, c)]
    ctx.close("crossover_blocks_equal_whole", np.concatenate(parts), e, 1e-7, 1e-10)


MORE = 3  # times the number of cases below in the quick tier
FAMILIES = [
    Family("single", single, 600, 8000),
    Family("selected", selected, 150, 2000),
    Family("bank", bank, 250, 4000),
    Family("linkwitz", linkwitz, 200, 3000),
    Family("crossover", crossover, 60, 800),
]
