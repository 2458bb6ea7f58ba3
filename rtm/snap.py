"""Observable state of library objects, for before/after comparisons.

The state of an object is what its public surface shows: public properties and
public instance attributes (plus the stored spectrum/spectrogram parameters,
which have no public accessor).  Caches are not part of it."""

from __future__ import annotations

import enum
import types

import numpy as np

CACHES = {
    "spectrum", "csm", "spectrogram", "time_vector_s", "metadata_str", "metadata",
    "beamformer_type",
}
PRIVATE = ("_spectrum_parameters", "_spectrogram_parameters")


def _lib(obj):
    return type(obj).__module__.split(".")[0] == "dsptoolbox"


def public_items(obj):
    out = {}
    names = set()
    for klass in type(obj).__mro__:
        for k, v in vars(klass).items():
            if isinstance(v, property) and not k.startswith("_"):
                names.add(k)
    for k in getattr(obj, "__dict__", {}):
        if not k.startswith("_") or k in PRIVATE:
            names.add(k)
    for k in sorted(names - CACHES):
        try:
            out[k] = getattr(obj, k)
        except Exception as e:  # a property that is not available
            out[k] = ("unavailable", type(e).__name__)
    return out


def snap(obj, depth=0, seen=None):
    """A nested, independent image of an object."""
    if seen is None:
        seen = {}
    if obj is None or isinstance(obj, (bool, int, float, complex, str, bytes, enum.Enum)):
        return obj
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("oarray", [snap(o, depth + 1, seen) for o in obj.ravel()])
        return ("array", obj.dtype.str, obj.shape, obj.copy())
    if depth > 8 or id(obj) in seen:
        return ("seen",)
    seen = dict(seen)
    seen[id(obj)] = True
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [snap(o, depth + 1, seen) for o in obj])
    if isinstance(obj, (set, frozenset)):
        return ("set", sorted(map(repr, obj)))
    if isinstance(obj, dict):
        return ("dict", {repr(k): snap(v, depth + 1, seen) for k, v in obj.items()})
    if isinstance(obj, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type, slice, range)):
        return ("opaque", repr(obj) if isinstance(obj, (slice, range)) else None)
    if _lib(obj):
        return ("object", type(obj).__name__, {k: snap(v, depth + 1, seen) for k, v in public_items(obj).items()})
    return ("opaque", type(obj).__name__)


def diff(a, b, path=""):
    """Path of the first difference between two snapshots, or None."""
    if type(a) is not type(b):
        if all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in (a, b)) and a == b:
            return None
        return f"{path}: {_s(a)} -> {_s(b)}"
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
            return f"{path}: array changed"
        return None
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}.{k}: {'added' if k not in a else 'removed'}"
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} -> {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]" if isinstance(a, list) else path)
            if d:
                return d
        return None
    if isinstance(a, float) and a != a and b != b:
        return None
    if a != b:
        return f"{path}: {_s(a)} -> {_s(b)}"
    return None


def _s(v):
    return repr(v)[:60]


def arrays(obj, depth=0, seen=None, path=""):
    """All arrays reachable from an object's instance state."""
    if seen is None:
        seen = set()
    if id(obj) in seen or depth > 8:
        return
    if isinstance(obj, np.ndarray):
        if obj.dtype != object and obj.size:
            yield path, obj
        return
    if isinstance(obj, (str, bytes, int, float, complex, bool, type(None), enum.Enum)):
        return
    seen.add(id(obj))
    if isinstance(obj, (list, tuple)):
        for i, o in enumerate(obj):
            yield from arrays(o, depth + 1, seen, f"{path}[{i}]")
    elif isinstance(obj, dict):
        for k, o in obj.items():
            yield from arrays(o, depth + 1, seen, f"{path}[{k!r}]")
    elif _lib(obj) and not isinstance(obj, type):
        for k, o in getattr(obj, "__dict__", {}).items():
            yield from arrays(o, depth + 1, seen, f"{path}.{k}")


def shared(result, inputs):
    """Writable memory of `result` that also belongs to `inputs`."""
    ins = list(arrays(inputs))
    for p, a in arrays(result):
        if not a.flags.writeable:
            continue
        for q, b in ins:
            if a is b or np.may_share_memory(a, b) and np.shares_memory(a, b):
                return f"result{p} shares memory with input{q}"
    return None


def containers(obj, depth=0, seen=None, path=""):
    """All lists and dictionaries reachable from an object's instance state."""
    if seen is None:
        seen = set()
    if id(obj) in seen or depth > 8:
        return
    if isinstance(obj, (np.ndarray, str, bytes, int, float, complex, bool, type(None), enum.Enum)):
        return
    seen.add(id(obj))
    if isinstance(obj, (list, dict)):
        yield path, obj
    if isinstance(obj, (list, tuple)):
        for i, o in enumerate(obj):
            yield from containers(o, depth + 1, seen, f"{path}[{i}]")
    elif isinstance(obj, dict):
        for k, o in obj.items():
            yield from containers(o, depth + 1, seen, f"{path}[{k!r}]")
    elif _lib(obj) and not isinstance(obj, type):
        for k, o in getattr(obj, "__dict__", {}).items():
            yield from containers(o, depth + 1, seen, f"{path}.{k}")


def shared_containers(result, inputs):
    """A list or dictionary of `result` that also belongs to `inputs`."""
    ins = {id(o): q for q, o in containers(inputs)}
    for p, o in containers(result):
        if id(o) in ins:
            return f"result{p} is also input{ins[id(o)]}"
    return None
