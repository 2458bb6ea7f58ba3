"""Shared machinery: case generation, monitors' verdicts, evidence, replay.

A check (one module in rtm/checks) is a list of families.  A family is a
workload generator plus the oracles observing it; a case is one execution of
the real code of /repo under that workload with a case-specific random state.
"""

from __future__ import annotations

import contextlib
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from dataclasses import dataclass, field

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclass
class Family:
    name: str
    fn: object
    quick: int
    thorough: int
    needs_jit: bool = False


class Stop(Exception):
    """Raised by a case to end it early after a recorded failure."""


class Ctx:
    """Handed to each case: random choices, oracles, event counters."""

    def __init__(self, family: str, index: int, seed: int):
        self.family = family
        self.index = index
        self.rng = np.random.default_rng([seed, zlib.crc32(family.encode()), index])
        self.choices: list[str] = []
        self.events: Counter = Counter()
        self.n_oracle = 0
        self.failures: list[tuple[str, str]] = []
        self.sighash = hashlib.blake2b(digest_size=8)

    # ---------------------------------------------------------- generation
    def pick(self, name, options):
        i = int(self.rng.integers(len(options)))
        v = options[i]
        self.choices.append(f"{name}={_short(v)}")
        return v

    def int(self, name, lo, hi):
        """lo <= value <= hi"""
        v = int(self.rng.integers(lo, hi + 1))
        self.choices.append(f"{name}={v}")
        return v

    def uniform(self, name, lo, hi):
        v = float(self.rng.uniform(lo, hi))
        self.choices.append(f"{name}={v:.6g}")
        return v

    def logu(self, name, lo, hi):
        v = float(np.exp(self.rng.uniform(np.log(lo), np.log(hi))))
        self.choices.append(f"{name}={v:.6g}")
        return v

    def flag(self, name, p=0.5):
        v = bool(self.rng.random() < p)
        self.choices.append(f"{name}={int(v)}")
        return v

    def normal(self, *shape):
        return self.rng.standard_normal(shape)

    def note(self, text):
        self.choices.append(str(text))

    # ------------------------------------------------------------- oracles
    def event(self, name, n=1):
        self.events[name] += n

    def fail(self, key, msg=""):
        self.failures.append((f"{self.family}/{key}", str(msg)[:600]))
        return False

    def ok(self, key, cond, msg=""):
        self.n_oracle += 1
        self.events[f"oracle:{key}"] += 1
        self.sighash.update(key.encode())
        if not bool(cond):
            return self.fail(key, msg)
        return True

    def close(self, key, actual, expected, rtol=1e-8, atol=0.0, scale=None, msg=""):
        """max|actual-expected| <= rtol*scale + atol, with scale = max|expected|
        unless given.  Shapes must be equal; nan/inf must coincide."""
        self.n_oracle += 1
        self.events[f"oracle:{key}"] += 1
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.dtype == object or e.dtype == object:
            return self.fail(key, f"object arrays {msg}")
        if a.shape != e.shape:
            return self.fail(key, f"shape {a.shape} instead of {e.shape} {msg}")
        if e.size == 0:
            return True
        self.sighash.update(np.ascontiguousarray(np.round(np.abs(e).ravel()[:64], 9)).tobytes())
        fe = np.isfinite(e)
        fa = np.isfinite(a)
        if not np.array_equal(fa, fe):
            return self.fail(key, f"finite pattern differs ({(~fa).sum()} vs {(~fe).sum()} non-finite) {msg}")
        if not fe.all():
            if not np.array_equal(a[~fe], e[~fe], equal_nan=True):
                return self.fail(key, f"non-finite values differ {msg}")
            a = a[fe]
            e = e[fe]
            if e.size == 0:
                return True
        if scale is None:
            scale = float(np.max(np.abs(e)))
        err = float(np.max(np.abs(a - e)))
        tol = rtol * scale + atol
        if not err <= tol:
            i = int(np.argmax(np.abs(a - e)))
            return self.fail(
                key,
                f"max error {err:.6g} > {tol:.3g} (scale {scale:.4g}); at flat index {i}: "
                f"{np.ravel(a)[i]!r} instead of {np.ravel(e)[i]!r} {msg}",
            )
        return True

    def equal(self, key, actual, expected, msg=""):
        if isinstance(actual, np.ndarray) or isinstance(expected, np.ndarray):
            a, e = np.asarray(actual), np.asarray(expected)
            same = a.shape == e.shape and bool(
                np.array_equal(a, e, equal_nan=a.dtype.kind in "fc" and e.dtype.kind in "fc")
            )
            return self.ok(key, same, f"arrays differ: {_short(a)} instead of {_short(e)} {msg}")
        return self.ok(key, actual == expected, f"{_short(actual)} instead of {_short(expected)} {msg}")

    def raises(self, key, fn, msg="", exc=Exception):
        """The call has to be refused with an exception."""
        self.n_oracle += 1
        self.events[f"oracle:{key}"] += 1
        try:
            fn()
        except exc:
            return True
        return self.fail(key, f"accepted instead of refused {msg}")

    def need(self, cond, msg=""):
        """The workload's own precondition; stop the case when it is not met
        (not a verdict)."""
        if not cond:
            self.events["skipped"] += 1
            raise Stop()


def _short(v):
    if isinstance(v, np.ndarray):
        if v.size <= 8:
            return np.array2string(v, precision=5, separator=",").replace("\n", "")
        return f"array{v.shape}"
    if isinstance(v, float):
        return f"{v:.8g}"
    if callable(v) and hasattr(v, "__name__"):
        return v.__name__
    s = str(v)
    return s if len(s) < 120 else s[:117] + "..."


# --------------------------------------------------------------------------
#  running
# --------------------------------------------------------------------------
_FAMS: dict[str, Family] = {}
_SEED = 1
_NULL = open(os.devnull, "w")


def run_case(fam: Family, index: int, seed: int):
    ctx = Ctx(fam.name, index, seed)
    np.random.seed((seed * 7919 + zlib.crc32(fam.name.encode()) + index) % (2**32))
    import random

    random.seed(seed * 7919 + index)
    t = time.time()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with np.errstate(all="ignore"), contextlib.redirect_stdout(_NULL):
                fam.fn(ctx)
        except Stop:
            pass
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            lib_where = ""
            for fr in tb:
                if "/dsptoolbox/" in fr.filename:
                    lib_where = f"{fr.filename.split('/dsptoolbox/')[-1]}:{fr.name}"
                where = f"{os.path.basename(fr.filename)}:{fr.lineno}:{fr.name}"
            # key by mechanism: exception type and the innermost library function
            key = f"exception:{type(e).__name__}" + (f":{lib_where}" if lib_where else "")
            ctx.n_oracle += 1
            ctx.fail(key, f"{type(e).__name__}: {e} at {where} {lib_where}")
    import matplotlib.pyplot as plt

    if plt.get_fignums():
        plt.close("all")
    return {
        "family": fam.name,
        "index": index,
        "choices": ctx.choices,
        "events": dict(ctx.events),
        "n_oracle": ctx.n_oracle,
        "failures": ctx.failures,
        "sig": hashlib.blake2b(
            ("|".join(ctx.choices)).encode() + ctx.sighash.digest() + fam.name.encode(), digest_size=8
        ).hexdigest(),
        "t": time.time() - t,
    }


def _worker(args):
    name, index = args
    return run_case(_FAMS[name], index, _SEED)


def load_findings(prop):
    """known_findings.txt: lines `open property=<id> key=<key> :: text` and
    `fixed: property=<id> <commit> <what failed>`."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("open "):
                continue
            head, text = line.split(" :: ", 1)
            parts = dict(p.split("=", 1) for p in head.split()[1:])
            if parts["property"] == prop:
                out[parts["key"]] = text
    return out


def main_check(mod, tier, seed, replay=None, only=None, procs=None, verbose=False, scale=1.0):
    global _SEED
    t0 = time.time()
    prop = mod.PROPERTY
    _SEED = seed
    _FAMS.clear()
    for f in mod.FAMILIES:
        assert f.name not in _FAMS, f.name
        _FAMS[f.name] = f
    if replay:
        spec = json.load(open(replay))
        _SEED = spec["seed"]
        bad = False
        for fl in spec["failures"]:
            r = run_case(_FAMS[fl["family"]], fl["index"], _SEED)
            print(json.dumps(r, indent=1, default=str))
            bad |= bool(r["failures"])
        if bad:
            print(f"VIOLATION property={prop} replay={replay}")
        return 1 if bad else 0

    tasks = []
    for f in mod.FAMILIES:
        if only and f.name not in only:
            continue
        more = f.quick if f.quick == 1 else f.quick * getattr(mod, "MORE", 1)
        n = min(more, f.thorough) if tier == "quick" else max(f.thorough, 4 * more if f.quick > 1 else 0)
        n = max(1, int(round(n * scale)))
        tasks += [(f.name, i) for i in range(n)]
    # interleave families so that the pool stays balanced
    order = np.random.default_rng(0).permutation(len(tasks))
    tasks = [tasks[i] for i in order]
    results = []
    procs = procs or min(8, os.cpu_count() or 1)
    deadline = t0 + (780 if tier == "quick" else float(os.environ.get("RTM_MAX_S", 7200)))
    timed_out = False
    if procs == 1:
        for tk in tasks:
            results.append(_worker(tk))
    else:
        import multiprocessing as mp

        pool = mp.get_context("fork").Pool(procs)
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        try:
            for _ in range(len(tasks)):
                results.append(it.next(timeout=max(1.0, deadline - time.time())))
        except mp.TimeoutError:
            timed_out = True
        pool.terminate()
        pool.join()
    return conclude(mod, tier, seed, results, tasks, timed_out, t0, verbose, bool(only))


def conclude(mod, tier, seed, results, tasks, timed_out, t0, verbose, partial):
    prop = mod.PROPERTY
    results.sort(key=lambda r: (r["family"], r["index"]))
    findings = load_findings(prop)
    events: Counter = Counter()
    per_family: dict[str, Counter] = {}
    sigs = set()
    nontrivial = set()
    violations = []
    seen_findings = {}
    tfam: Counter = Counter()
    for r in results:
        c = per_family.setdefault(r["family"], Counter())
        c["cases"] += 1
        c["oracle_evaluations"] += r["n_oracle"]
        tfam[r["family"]] += r["t"]
        for k, v in r["events"].items():
            if k.startswith("oracle:"):
                c[k] += v
            else:
                events[k] += v
        sigs.add(r["sig"])
        if r["n_oracle"] > 0:
            nontrivial.add(r["sig"])
        for key, msg in r["failures"]:
            if key in findings:
                seen_findings.setdefault(key, msg)
            else:
                violations.append(
                    {"family": r["family"], "index": r["index"], "key": key, "msg": msg, "choices": r["choices"]}
                )
    inconclusive = []
    for name in {t[0] for t in tasks}:
        if per_family.get(name, Counter())["oracle_evaluations"] == 0:
            inconclusive.append(name)
    for key in sorted(seen_findings):
        print(f"KNOWN-FINDING: property={prop} {findings[key]} [{key}]")

    samples = []
    shown = set()
    for r in results:
        if r["family"] in shown:
            continue
        shown.add(r["family"])
        samples.append(
            {"family": r["family"], "index": r["index"], "choices": r["choices"][:30], "oracles": {k[7:]: v for k, v in r["events"].items() if k.startswith("oracle:")}}
        )
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": getattr(mod, "RULE", "")
            or "A case draws one workload for its family from the seeded generator and executes it on the real "
            "library; it is non-trivial if at least one oracle was evaluated on it, and two cases are the same "
            "if their drawn parameters and the digest of the expected values are equal.",
            "oracle_evaluations": int(sum(r["n_oracle"] for r in results)),
            "monitor_events": dict(sorted(events.items())),
            "families": {k: dict(sorted(v.items())) for k, v in sorted(per_family.items())},
            "known_findings_observed": sorted(seen_findings),
            "samples": samples[:40],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    if not partial:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    if verbose:
        for k, v in tfam.most_common():
            print(f"  {k:40s} {per_family[k]['cases']:5d} cases {per_family[k]['oracle_evaluations']:7d} oracles {v:8.2f}s cpu")
    if violations:
        path = os.path.join(VERIF, "evidence", f"{prop}.replay.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "failures": violations[:50]}, f, indent=1)
        by = {}
        for v in violations:
            by.setdefault(v["key"], []).append(v)
        for k, vs in list(by.items())[:40]:
            print(f"# {k} ({len(vs)}x), e.g. case {vs[0]['index']}: {vs[0]['msg']}")
            print(f"#     {' '.join(vs[0]['choices'])[:700]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if timed_out:
        print(f"INCONCLUSIVE property={prop}: watchdog after {len(results)} of {len(tasks)} cases")
        return 2
    if inconclusive:
        print(f"INCONCLUSIVE property={prop}: no oracle was reached in {sorted(inconclusive)}")
        return 2
    print(
        f"HELD property={prop} tier={tier} seed={seed}: {len(results)} cases, "
        f"{evidence['coverage']['oracle_evaluations']} oracle evaluations, {evidence['wall_s']} s"
    )
    return 0
