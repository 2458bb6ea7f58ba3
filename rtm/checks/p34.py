"""P34: audio streams, against a stand-in for the audio device.

The stream classes of sounddevice are replaced by a simulated device which calls the callbacks with blocks of varying size; all of the routing code
of sounddevice itself is the real one.
"""

import builtins
import contextlib
import io
import warnings

import numpy as np
import sounddevice as sd
import dsptoolbox as dsp
from dsptoolbox import audio_io as aio
from rtm.core import Family
from rtm.snap import snap, diff
from rtm import gen

PROPERTY = "P34"

NAMES = ["Built-in Microphone", "Studio Interface X8", "USB Headset", "studio interface backup", "HDMI Monitor"]
DEVICES = [dict(name=n, index=i, hostapi=0, max_input_channels=16, max_output_channels=16, default_samplerate=48000.0) for i, n in enumerate(NAMES)]
DEFAULT = (0, 1)


class Device:
    """Log of everything that happened."""

    def __init__(self, rng, blocks):
        self.rng = rng
        self.blocks = blocks
        self.streams = []

    def inputs(self, start, frames, channels):
        """Deterministic content of the physical inputs."""
        t = np.arange(start, start + frames)[:, None]
        return (np.sin(t * 0.1 * (np.arange(channels) + 1)) * 0.5 + 0.01 * np.arange(channels)).astype(np.float32)


class Fake:
    """Base of the simulated streams."""

    has_in = has_out = False

    def __init__(self, samplerate=None, blocksize=None, device=None, channels=None, dtype=None, latency=None, extra_settings=None, callback=None, finished_callback=None, clip_off=None, dither_off=None, never_drop_input=None, prime_output_buffers_using_stream_callback=None):
        self.samplerate, self.blocksize, self.callback, self.finished = samplerate, blocksize, callback, finished_callback
        if samplerate is None:
            self.samplerate = sd.default.samplerate
        self.settings = dict(device=device, latency=latency, clip_off=clip_off, dither_off=dither_off, never_drop_input=never_drop_input, prime=prime_output_buffers_using_stream_callback, dtype=dtype, extra_settings=extra_settings)
        d = sd.default.device if device is None else device
        try:
            pair = tuple(d)
        except TypeError:
            pair = (d, d)
        pair = tuple(DEFAULT[i] if v in (None, -1) else v for i, v in enumerate(pair))
        self.device = pair
        c = (channels, channels) if np.ndim(channels) == 0 else tuple(channels)
        self.channels_in, self.channels_out = c
        self.channels = channels
        self.out = []
        self.position = 0
        self.ended = None
        self._callback = callback
        self._finished_callback = finished_callback
        LOG.streams.append(self)

    def start(self):
        for _ in range(100000):
            n = LOG.blocks(self)
            indata = LOG.inputs(self.position, n, self.channels_in) if self.has_in else None
            out = np.full((n, self.channels_out), np.nan, dtype=np.float32) if self.has_out else None
            args = ([indata] if self.has_in else []) + ([out] if self.has_out else []) + [n, None, sd.CallbackFlags()]
            try:
                self.callback(*args)
            except sd.CallbackStop:
                self.ended = "stop"
            except sd.CallbackAbort:
                self.ended = "abort"
            self.position += n
            if self.has_out and self.ended != "abort":
                self.out.append(out)
            if self.ended:
                break
        if self.finished is not None:
            self.finished()

    def stop(self, ignore_errors=True):
        pass

    def close(self, ignore_errors=True):
        pass

    abort = close

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *a):
        pass

    @property
    def played(self):
        return np.concatenate(self.out) if self.out else np.zeros((0, self.channels_out))


class FakeIn(Fake):
    has_in = True


class FakeOut(Fake):
    has_out = True


class FakeBoth(Fake):
    has_in = has_out = True


LOG = None


@contextlib.contextmanager
def audio(ctx):
    """Replace the device."""
    global LOG
    kind = ctx.pick("blocks", ["constant", "random", "single", "huge"])
    size = ctx.int("blocksize", 1, 300)

    def blocks(stream):
        if stream.blocksize:
            return stream.blocksize
        if sd.default.blocksize:
            return sd.default.blocksize
        return {"constant": size, "random": int(ctx.rng.integers(1, 400)), "single": 7, "huge": 100000}[kind]

    LOG = Device(ctx.rng, blocks)
    old = {k: getattr(sd, k) for k in ("Stream", "InputStream", "OutputStream", "query_devices", "stop", "sleep")}
    state = {k: (list(v._pair) if hasattr(v, "_pair") else v) for k, v in ((k, getattr(sd.default, k)) for k in ("device", "latency", "samplerate", "blocksize", "channels", "dtype"))}
    sd.Stream, sd.InputStream, sd.OutputStream = FakeBoth, FakeIn, FakeOut

    def query(device=None, kind=None):
        if device is None and kind is None:
            return sd.DeviceList(DEVICES)
        try:
            device = tuple(device)[0 if kind == "input" else 1]
        except TypeError:
            pass
        return DEVICES[DEFAULT[0 if kind == "input" else 1] if device in (None, -1) else device]

    sd.query_devices = query
    sd.stop = lambda ignore_errors=True: None
    sd.sleep = lambda ms: LOG.streams.append(("sleep", ms))
    sd.default.device = DEFAULT
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield LOG
    finally:
        for k, v in old.items():
            setattr(sd, k, v)
        for k, v in state.items():
            setattr(sd.default, k, v)


def defaults():
    return {k: (list(v._pair) if hasattr(v, "_pair") else v) for k, v in ((k, getattr(sd.default, k)) for k in ("device", "latency", "samplerate", "blocksize", "channels", "dtype"))}


def signal(ctx, c=None):
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 6) if c is None else c
    n = ctx.int("n", c, 1500)
    x = ctx.rng.normal(size=(n, c)) * ctx.logu("level", 1e-3, 10)
    k = ctx.pick("content", ["noise", "noise", "silent", "one_silent"])
    if k == "silent":
        x *= 0
    if k == "one_silent":
        x[:, 0] = 0
    s = dsp.Signal(None, x.copy(), fs, constrain_amplitude=ctx.flag("constrained"))
    return s, s.time_data.copy(), fs


def expected(ctx, x, fs, duration, dbfs):
    """Samples to be played."""
    n = len(x)
    if duration is not None:
        n = min(n, int(np.floor(duration * fs + 1e-6)))
    y = x[:n]
    if dbfs is not None:
        p = np.max(np.abs(y)) if y.size else 0
        if p > 0:
            y = y / p * 10 ** (dbfs / 20)
    return y


def request(ctx, x, fs):
    """Duration, level, device and channels."""
    n, c = x.shape
    kind = ctx.pick("duration", ["none", "shorter", "longer", "exact"])
    d = {"none": None, "shorter": (int(ctx.rng.integers(1, n + 1)) + 0.25) / fs, "longer": (n + 100) / fs, "exact": n / fs}[kind]
    if kind == "longer" and ctx.flag("whole_seconds"):
        d = int(np.ceil(n / fs)) + 1
    dbfs = ctx.pick("dbfs", [None, 0, -6, -20.0])
    device = ctx.pick("device", [None, 2, 4])
    how = ctx.pick("map", ["none", "list", "tuple", "array", "ordered", "integer" if c == 1 else "list"])
    first = ctx.int("first", 1, 9)
    chans = ctx.rng.permutation(np.arange(1, 13))[:c]
    if how == "none":
        given, chans = None, np.arange(1, c + 1)
    elif how == "integer":
        given, chans = first, np.array([first])
    elif how == "ordered":
        chans = np.sort(chans)
        given = [int(i) for i in chans]
    else:
        given = {"list": [int(i) for i in chans], "tuple": tuple(int(i) for i in chans), "array": chans.copy()}[how]
    return d, dbfs, device, given, chans


def heard(ctx, stream, y, chans, fs, device, key):
    """The samples at the outputs of the device."""
    ctx.equal(key + "_rate", stream.samplerate, fs)
    ctx.ok(key + "_device", stream.device[1] == (DEFAULT[1] if device is None else device), f"{stream.device}, requested {device}")
    out = stream.played
    if len(out) < len(y):
        return ctx.fail(key + "_length", f"{len(out)} samples of {len(y)}")
    out = out.astype(float)
    sc = np.max(np.abs(y)) if y.size else 1.0
    for i, ch in enumerate(chans):
        ctx.close(key + "_samples", out[: len(y), ch - 1], y[:, i], 1e-6, scale=sc + 1e-30, msg=f"channel {i} at output {ch}")
    rest = [k for k in range(out.shape[1]) if k + 1 not in chans]
    ctx.ok(key + "_other_outputs", bool(np.all(out[: len(y), rest] == 0)))
    tail = out[len(y) :]
    ctx.ok(key + "_nothing_after", bool(np.all(tail[:, chans - 1] == 0)), f"{np.sum(tail != 0)} samples")
    ctx.event("samples", out.size)
    ctx.event("blocks", len(stream.out))


def playback(ctx):
    s, x, fs = signal(ctx)
    d, dbfs, device, given, chans = request(ctx, x, fs)
    before = snap(s)
    with audio(ctx) as log:
        if ctx.flag("default_block", 0.2):
            aio.set_blocksize(ctx.int("bs", 1, 500))
        was = defaults()
        aio.play(s, d, dbfs, device, given)
        ctx.equal("streams", len(log.streams), 1)
        heard(ctx, log.streams[0], expected(ctx, x, fs, d, dbfs), chans, fs, device, "play")
        ctx.ok("defaults_kept", defaults() == was, f"{defaults()} {was}")
        # a second time with the default
        aio.play(s, None, None, None, None)
        heard(ctx, log.streams[1], x, np.arange(1, x.shape[1] + 1), fs, None, "again")
    ctx.ok("signal_kept", diff(before, snap(s)) is None)


def recording(ctx):
    fs = ctx.pick("fs", gen.FS)
    frames = ctx.int("frames", 20, 2000)
    dur = (frames + ctx.pick("excess", [0.0, 0.25])) / fs
    device = ctx.pick("device", [None, 3, 4])
    how = ctx.pick("channels", ["default", "integer", "list", "tuple"])
    chans = [int(i) for i in ctx.rng.permutation(np.arange(1, 11))[: ctx.int("number", 1, 5)]]
    if how == "integer":
        chans = chans[:1]
    if how == "default":
        chans = [1]
    given = {"default": None, "integer": chans[0], "list": list(chans), "tuple": tuple(chans)}[how]
    with audio(ctx) as log:
        was = defaults()
        r = aio.record(dur, fs, device) if given is None else aio.record(dur, fs, device, given)
        ctx.ok("defaults_kept", defaults() == was)
        st = log.streams[0]
        ctx.equal("rate", st.samplerate, fs)
        ctx.ok("device", st.device[0] == (DEFAULT[0] if device is None else device), f"{st.device}")
        ctx.ok("type", type(r) is dsp.Signal and r.sampling_rate_hz == fs)
        ctx.equal("channels", r.number_of_channels, len(chans))
        ctx.equal("length", r.length_samples, frames)
        want = log.inputs(0, frames, 12)[:, np.sort(chans) - 1]
        ctx.close("samples", r.time_data, want, 1e-6)
        if isinstance(given, list):
            ctx.ok("list_kept", given == chans)
        again = aio.record(dur, fs)
        ctx.close("default_again", again.time_data, log.inputs(0, frames, 12)[:, :1], 1e-6)
        ctx.ok("device_again", log.streams[-1].device[0] == DEFAULT[0])


def both(ctx):
    s, x, fs = signal(ctx)
    d, dbfs, device, given, chans = request(ctx, x, fs)
    if len(x) < 20:
        return ctx.ok("too_short", True)
    rec = [int(i) for i in ctx.rng.permutation(np.arange(1, 9))[: ctx.int("rec", 1, 4)]]
    rg = rec[0] if len(rec) == 1 and ctx.flag("integer_rec") else list(rec)
    before = snap(s)
    with audio(ctx) as log:
        was = defaults()
        y = expected(ctx, x, fs, d, dbfs)
        r = aio.play_and_record(s, d, dbfs, device, given, rg)
        ctx.ok("defaults_kept", defaults() == was)
        ctx.equal("streams", len(log.streams), 1)
        st = log.streams[0]
        heard(ctx, st, y, chans, fs, device, "play")
        ctx.ok("input_device", st.device[0] == (DEFAULT[0] if device is None else device))
        ctx.ok("type", type(r) is dsp.Signal and r.sampling_rate_hz == fs)
        if len(y) >= len(rec):
            ctx.ok("shape", r.time_data.shape == (len(y), len(rec)), f"{r.time_data.shape}")
            ctx.close("recorded", r.time_data, log.inputs(0, len(y), 12)[:, np.sort(rec) - 1], 1e-6)
    ctx.ok("signal_kept", diff(before, snap(s)) is None)


def refusals(ctx):
    s, x, fs = signal(ctx)
    c = x.shape[1]
    with audio(ctx) as log:
        was = defaults()
        before = snap(s)
        ctx.raises("zero_channel", lambda: aio.play(s, play_channels=[0] + list(range(2, c + 1))))
        ctx.raises("play_count", lambda: aio.play(s if c > 1 else dsp.Signal(None, np.ones((9, 2)), fs), play_channels=list(range(1, c + 5))))
        ctx.raises("count", lambda: aio.play_and_record(s, play_channels=list(range(1, c + 2))))
        ctx.raises("rec_zero", lambda: aio.play_and_record(s, rec_channels=[0, 1]))
        ctx.raises("record_zero", lambda: aio.record(1.0, fs, None, [0]))
        ctx.raises("duration", lambda: aio.play(s, ctx.pick("bad", [0, -1.0])))
        ctx.raises("duration_2", lambda: aio.play_and_record(s, ctx.pick("bad2", [0, -1.0])))
        ctx.raises("level", lambda: aio.play(s, normalized_dbfs=0.1))
        ctx.raises("level_2", lambda: aio.play_and_record(s, normalized_dbfs=3))
        ctx.raises("twice", lambda: aio.play(dsp.Signal(None, np.ones((9, 2)), fs), play_channels=[2, 2]))
        ctx.raises("unknown", lambda: aio.set_device("no such device"))
        ctx.raises("wrong_list", lambda: aio.set_device([1]))
        ctx.raises("wrong_type", lambda: aio.set_device(1.5))
        ctx.raises("mixed", lambda: aio.set_device([1, "HDMI"]))
        ctx.ok("nothing_played", not any(st.out for st in log.streams))
        ctx.ok("defaults_kept", defaults() == was)
        ctx.ok("signal_kept", diff(before, snap(s)) is None)


def configuration(ctx):
    """Selection of devices and settings."""
    with audio(ctx) as log:
        rate = ctx.pick("rate", [None, 44100, 96000])
        kind = ctx.pick("kind", ["int", "str", "ints", "strs", "prompt", "prompt_one"])
        a, b = (int(i) for i in ctx.rng.integers(0, len(NAMES), 2))

        def part(i):
            w = NAMES[i].split()[-1] if i != 1 else "interface x"
            return w.upper() if ctx.flag("upper") else w

        if kind == "int":
            arg, want = a, (a, a)
        elif kind == "ints":
            arg, want = [a, b], (a, b)
        elif kind == "str":
            arg, want = part(a), (a, a)
        elif kind == "strs":
            arg, want = [part(a), part(b)], (a, b)
        else:
            arg, want = None, (a, b) if kind == "prompt" else (a, a)
            old = builtins.input
            builtins.input = lambda *_: f"{a}, {b}" if kind == "prompt" else f"{a}"
        try:
            r = aio.set_device(arg, rate)
        finally:
            if arg is None:
                builtins.input = old
        ctx.ok("list", [q["name"] for q in r] == NAMES)
        ctx.ok("device", tuple(sd.default.device) == want, f"{sd.default.device} {want}")
        ctx.ok("samplerate", sd.default.samplerate == rate)
        x = ctx.rng.normal(size=(50, 2)) * 0.1
        s = dsp.Signal(None, x, 48000)
        aio.play(s, normalized_dbfs=None)
        ctx.ok("used", log.streams[-1].device[1] == want[1])
        ctx.ok("own_rate", log.streams[-1].samplerate == 48000)
        aio.record(0.1, 8000)
        ctx.ok("used_input", log.streams[-1].device[0] == want[0] and log.streams[-1].samplerate == 8000)
        ctx.equal("by_name", aio.get_interface_number_by_name("studio", sd.query_devices()) if hasattr(aio, "get_interface_number_by_name") else (1, NAMES[1]), (1, NAMES[1]))
        ctx.ok("info", aio.print_device_info(a)["name"] == NAMES[a])
        ctx.equal("all_info", len(aio.print_device_info()), len(NAMES))
        i, o = ctx.flag("low_in"), ctx.flag("low_out")
        aio.set_latency(i, o)
        ctx.ok("latency", tuple(sd.default.latency) == ("low" if i else "high", "low" if o else "high"))
        n = ctx.int("block", 0, 4096)
        aio.set_blocksize(n)
        ctx.equal("blocksize", sd.default.blocksize, n)
        sec = ctx.pick("sleep", [0.0, 0.25, 2])
        aio.sleep(sec)
        ctx.ok("sleep", log.streams[-1] == ("sleep", int(sec * 1000)))


def streaming(ctx):
    """A user's callback with an output stream."""
    s, x, fs = signal(ctx)
    block = ctx.pick("size", [1, 64, 100, 511, 2048, None])
    done = []
    pos = [0]
    how = ctx.pick("stop", ["call", "raise"])
    td = s.time_data

    def callback(outdata, frames, time, status):
        part = td[pos[0] : pos[0] + frames]
        outdata[: len(part)] = part
        outdata[len(part) :] = 0
        pos[0] += frames
        if pos[0] >= len(td):
            if how == "call":
                aio.CallbackStop()
            else:
                raise aio.CallbackStop()

    device = ctx.pick("device", [None, 2])
    kw = dict(latency=ctx.pick("latency", [None, "low"]), clip_off=ctx.pick("clip", [None, True]), dither_off=ctx.pick("dither", [None, True]), finished_callback=lambda: done.append(1), device=device)
    with audio(ctx) as log:
        was = defaults()
        st = aio.output_stream(s, callback=callback, **kw) if block is None else aio.output_stream(s, block, callback=callback, **kw)
        ctx.ok("settings", st.settings["latency"] == kw["latency"] and st.settings["clip_off"] == kw["clip_off"] and st.settings["dither_off"] == kw["dither_off"])
        ctx.equal("blocksize", st.blocksize, block or 2048)
        ctx.equal("channels", st.channels, x.shape[1])
        with st:
            aio.sleep(0.1)
        ctx.equal("stopped", st.ended, "stop")
        ctx.equal("finished", done, [1])
        heard(ctx, st, x, np.arange(1, x.shape[1] + 1), fs, device, "stream")
        ctx.equal("blocks_until_end", len(st.out), int(np.ceil(len(x) / (block or 2048))))
        ctx.ok("defaults_kept", defaults() == was)


MORE = 7  # times the number of cases below in the quick tier
FAMILIES = [
    Family("playback", playback, 250, 8000),
    Family("recording", recording, 200, 6000),
    Family("both", both, 250, 8000),
    Family("refusals", refusals, 60, 1500),
    Family("configuration", configuration, 120, 4000),
    Family("streaming", streaming, 150, 4000),
]
