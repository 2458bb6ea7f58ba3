"""Observer around every public entry point of the library.

`install()` replaces each public function and each public method of the public classes by a wrapper.  The outermost call of a thread of
execution is observed: an image of all arguments (and of the object the method belongs to) is taken before and compared afterwards, and the
result is searched for memory that also belongs to the arguments.  Calls made by the library itself run unobserved.

What counts as a change is the public state (rtm.snap); caches are not part of it.
"""

from __future__ import annotations

import functools
import inspect
import types

import numpy as np

from rtm.snap import snap, diff, shared, shared_containers

STATE = {"depth": 0, "sink": None, "vary": None}

# methods which are documented to change the object they are called on
CHANGES_SELF = (
    "set_", "add_", "remove_", "swap_", "clear_", "initialize_zi", "reset", "prepare", "process_", "fit_", "_set_", "__init__", "__iadd__",
)
CHANGES_SELF_OF = {
    "Spectrum": {"trim", "resample", "warp", "apply_octave_smoothing", "apply_gain", "normalize"},
    "Signal": set(), "ImpulseResponse": set(), "CalibrationData": {"calibrate_signal"},
}
# real-time structures keep the state of the samples they have processed
STATEFUL = {
    "RealtimeFilter", "IIRFilter", "FIRFilter", "FIRFilterOverlapSave", "StateSpaceFilter", "FilterChain", "WarpedFIR", "WarpedIIR", "KautzFilter", "ParallelFilter",
    "LatticeLadderFilter", "StateVariableFilter", "ExponentialAverageFilter",
}
STREAMING = {"filter_signal", "filter_multiband_signal", "filter_and_resample_signal"}
OWNING = {"Signal", "ImpulseResponse", "Spectrum", "Filter", "FilterBank", "MultiBandSignal"}
RESULTS = {"mixing_time_s", "modes_hz", "center_frequency_hz", "step_size"}
RETURNS_SELF = ("show_", "save_", "plot_")


def _public_modules():
    import dsptoolbox as dsp

    yield dsp
    for name in dsp.__all__:
        m = getattr(dsp, name, None)
        if isinstance(m, types.ModuleType):
            yield m


def _lib_class(c):
    return isinstance(c, type) and c.__module__.startswith("dsptoolbox") and not issubclass(c, (Exception,)) and not hasattr(c, "__members__")


def install():
    """Wrap everything once per process."""
    if STATE.get("installed"):
        return
    STATE["installed"] = True
    done = {}
    classes = set()
    for m in _public_modules():
        for name in list(getattr(m, "__all__", [k for k in vars(m) if not k.startswith("_")])):
            f = getattr(m, name, None)
            if inspect.isfunction(f) and f.__module__.startswith("dsptoolbox"):
                if f not in done:
                    done[f] = _wrap(f, f"{m.__name__.removeprefix('dsptoolbox.')}.{name}".removeprefix("dsptoolbox."), None)
                setattr(m, name, done[f])
            elif _lib_class(f):
                classes.update(k for k in f.__mro__ if _lib_class(k))
    for c in classes:
        for name, f in list(vars(c).items()):
            label = f"{c.__name__}.{name}"
            if isinstance(f, property):
                if f.fset is not None and not name.startswith("_"):
                    setattr(c, name, property(f.fget, _wrap(f.fset, label, "setter"), f.fdel, f.__doc__))
                continue
            if name.startswith("_") and name not in ("__init__", "__add__", "__sub__", "__mul__", "__truediv__", "__getitem__"):
                continue
            if isinstance(f, staticmethod):
                setattr(c, name, staticmethod(_wrap(f.__func__, label, None)))
            elif inspect.isfunction(f):
                setattr(c, name, _wrap(f, label, "method"))
    STATE["wrapped"] = len(done), len(classes)


def _without_results(before, after):
    """Rooms, beamformers and effects store what they have computed last in further attributes."""
    if after[0] != "object":
        return after
    keys = {k: v for k, v in after[2].items() if k in before[2]}
    for k in RESULTS & set(keys):
        keys[k] = before[2][k]
    return (*after[:2], keys)


def _numbers(v):
    return isinstance(v, (list, tuple)) and len(v) > 0 and all(isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool) for x in v)


def _wrap(f, label, kind):
    name = label.split(".")[-1]

    @functools.wraps(f)
    def watched(*args, **kwargs):
        if STATE["depth"] or STATE["sink"] is None:
            return f(*args, **kwargs)
        STATE["depth"] += 1
        try:
            return _observe(f, label, name, kind, args, kwargs)
        finally:
            STATE["depth"] -= 1

    return watched


def _observe(f, label, name, kind, args, kwargs):
    sink, vary = STATE["sink"], STATE["vary"]
    me = args[0] if kind in ("method", "setter") else None
    rest = list(args[1:] if me is not None else args)
    owner = type(me).__name__ if me is not None else None
    varied = False
    if vary is not None and kind != "setter" and name != "__init__":
        # numbers given as a list may as well be given as an array
        for i, v in enumerate(rest):
            if _numbers(v) and vary.random() < 0.4:
                rest[i], varied = np.array(v), True
        for k, v in kwargs.items():
            if _numbers(v) and vary.random() < 0.4:
                kwargs, varied = kwargs | {k: np.array(v)}, True
    first = ([me] if me is not None else []) + list(rest)
    before = snap((rest, kwargs))
    own = None
    init = name == "__init__"
    if me is not None and not init:
        own = snap(me)
    try:
        result = f(*first, **kwargs)
    except Exception:
        if varied:
            STATE["depth"] -= 1
            try:
                return f(*args, **{k: (list(v) if isinstance(v, np.ndarray) and k not in kwargs else v) for k, v in kwargs.items()})
            finally:
                STATE["depth"] += 1
        raise
    sink.event(f"call:{label}")
    d = diff(before, snap((rest, kwargs)))
    sink.ok(f"argument/{label}", d is None, f"{d}")
    mro = {c.__name__ for c in type(me).__mro__} if me is not None else set()
    if me is not None and not init:
        changes = kind == "setter" or name.startswith(CHANGES_SELF) or any(name in CHANGES_SELF_OF.get(c, ()) for c in mro) or bool(mro & STATEFUL)
        if name in STREAMING and (kwargs.get("activate_zi") or any(v is True for v in rest)):
            changes = True
        if not changes:
            d = diff(own, _without_results(own, snap(me)))
            sink.ok(f"self/{label}", d is None, f"{d}")
    given = [v for v in list(rest) + list(kwargs.values())]
    if kind == "setter" or init:
        if mro & OWNING:
            given = [v for v in given if isinstance(v, (np.ndarray, list, tuple)) and not (isinstance(v, (list, tuple)) and any(hasattr(x, "__dict__") for x in v))]
            m = shared(me, given)
            sink.ok(f"shared/{label}", m is None, f"{m}")
        return result
    if me is not None and result is me:
        sink.ok(f"returned_self/{label}", name.startswith(CHANGES_SELF + RETURNS_SELF) or any(name in CHANGES_SELF_OF.get(c, ()) for c in mro), "the object itself")
        if mro & OWNING:
            m = shared(me, [v for v in given if isinstance(v, np.ndarray)])
            sink.ok(f"shared/{label}", m is None, f"{m}")
        return result
    if label == "Grid.reconstruct_map_shape":
        return result  # documented to give back its argument
    inputs = given + ([me] if me is not None and mro & OWNING else [])
    m = shared(result, inputs)
    sink.ok(f"shared/{label}", m is None, f"{m}")
    if type(result).__name__ in OWNING:
        m = shared_containers(result, inputs)
        sink.ok(f"shared_container/{label}", m is None, f"{m}")
    return result
